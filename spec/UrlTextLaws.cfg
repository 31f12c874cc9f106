CONSTANTS
 Alpha = {32,37,43,65,97,49,61,38,58,13,10,255}
 MaxLen = 4
SPECIFICATION Spec
INVARIANTS SafeOut RoundTrip UnescEsc PreIdem LastWins NoSep
