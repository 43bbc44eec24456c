SPECIFICATION Spec
CONSTANTS NV = 2 MaxLive = 2 MaxLog = 2
CONSTRAINT Short
INVARIANTS Encoding CertCovers EmptyFlag UnitsOk BinsOk
CHECK_DEADLOCK FALSE
