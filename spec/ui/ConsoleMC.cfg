SPECIFICATION Spec
CONSTANTS Alphabet = {"0", "1", "2", "8", "-", "+", " ", "x"}
  MaxLen = 4
  Types = {"int8", "uint8", "string"}
INVARIANTS Meaning Texts Bools NoStruct Options
PROPERTIES OneLine

CHECK_DEADLOCK FALSE
