INIT Init
NEXT Next
CONSTANTS
    N = 1
    Bytes = {0, 1, 10, 175, 255}
    Alphabet = {48, 57, 97, 102, 65, 70, 71, 103, 233}
    MaxText = 3
    Margin = 1
INVARIANTS TypeOK RoundTrip OneText Serial NotBoth Widths PlainText Order OrderText Margins Ranges
CHECK_DEADLOCK FALSE
