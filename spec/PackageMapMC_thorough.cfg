SPECIFICATION Spec
PROPERTY Frame
CONSTRAINT Bound
VIEW View
CONSTANTS Names = {"a.xml", "d/b.bin", "x.rels"} Datas = {"", "61", "ff00"} Depth = 4
