SPECIFICATION TBSpec
CONSTANTS TInit <- RInit
 TSucc <- RSucc
 TWhy <- RWhy
CHECK_DEADLOCK FALSE
