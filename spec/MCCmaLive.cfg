SPECIFICATION Spec
INVARIANTS Accounting BudgetIter BudgetEvals NoIterationBeyond IpopBudget Tracking ElitNoLoss ElitInitial ElitRestartOnce RunCount BipopPowers BipopBalance AbortEnds StatusEnd ReportsPerRun
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
