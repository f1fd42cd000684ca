for p in ("G01", "G02", "G03", "G04", "G05", "G07", "G09", "G10", "G13"):
    TECH[p] = T + "trace validation of prutalgen runs on random and systematic file sets against Proto.tla"
TECH["G06"] = T + "trace validation of the codec on generated types, Codec.tla over the schema that Proto.tla derives"
TECH["G08"] = T + "trace validation of generated accessors against Proto.tla and Codec.tla"
TECH["G11"] = T + "exhaustive exploration of NotesMC.tla whose layouts are replayed on prutalgen, and trace validation of random files against Notes.tla"
TECH["G12"] = T + "exhaustive exploration of GrammarMC.tla whose texts are given to prutalgen, and trace validation of damaged and unusually written texts against Grammar.tla"
TECH["G14"] = T + "exhaustive exploration of RunsMC.tla whose behaviours are performed with prutalgen, and trace validation of random builds against Runs.tla and CodeWriter.tla"
