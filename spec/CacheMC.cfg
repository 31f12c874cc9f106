CONSTANTS
 Keys = {1,2}
 Sizes = {1,2}
 Max = 3
 Ttl = 1
 MaxNow = 3
 MaxVal = 4
 MaxHist = 100
 EmitPaths = FALSE
 NoVal = 0
SPECIFICATION Spec
VIEW DesignView
INVARIANTS BudgetInv UniqueInv OrderInv LatestInv LookupInv EvictInv EraseInv
