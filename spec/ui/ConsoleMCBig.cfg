SPECIFICATION Spec
CONSTANTS Alphabet = {"0", "1", "2", "3", "5", "6", "7", "8", "-", " ", "."}
  MaxLen = 5
  Types = {"int8", "uint8", "int16", "uint16", "bool", "float32"}
INVARIANTS Meaning Texts Bools NoStruct Options
PROPERTIES OneLine
CHECK_DEADLOCK FALSE
