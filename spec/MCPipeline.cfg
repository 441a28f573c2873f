SPECIFICATION Spec
CONSTANTS
    MaxFiles = 2
    MaxOuts = 3
    Fine <- FineKinds
    Blank <- BlankKinds
    Cannot <- CannotPairs
INVARIANTS DoneIsComplete EndIsResult NothingBeforeGenerating OutcomeIsResult Emit
PROPERTY Ends
