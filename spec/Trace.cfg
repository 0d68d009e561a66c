SPECIFICATION TSpec
CONSTANTS RuleSlots <- Slots
 IterSlots <- Slots
 ParamSlots <- Slots
 Items <- TItems
VIEW TView
CHECK_DEADLOCK FALSE
