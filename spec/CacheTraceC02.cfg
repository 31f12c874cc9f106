CONSTANTS
 Judge = "C02"
 NoVal = 0
SPECIFICATION Spec
