CONSTANTS
 Judge = "C01"
 NoVal = 0
SPECIFICATION Spec
