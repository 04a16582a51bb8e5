SPECIFICATION RunsSpec
CONSTANTS
  DiskPage = 4096
  G = 7
  HeaderSize = 64
  BlockFixed = 80
  PageSize = 4096
  FlushAt = 1000
  CLen <- RLen
  CTake <- RTake
  SameCol <- RSameCol
  IdSectionSize <- RIdSectionSize
  ValSectionSize <- RValSectionSize
  FitN <- RFitN
  AggFiltered <- RAggFiltered
  AggAll <- RAggAll
  AggMulti <- RAggMulti
  MustVisit <- RMustVisit
  IdSet <- RIdSet
  MatchBatches <- RMatchBatches
  BitmapIs <- RBitmapIs
  Filt <- RFilt
CHECK_DEADLOCK FALSE
