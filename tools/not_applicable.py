PURE = 'a sequential, pure data structure or function: no schedule, clock, I/O, fault or second party its result could depend on; sampling inputs would be property testing, not simulation'
REASONS = {
 'X04': 'Arithmetic helpers: ' + PURE + '.',
 'X06': 'Colour arithmetic: ' + PURE + '.',
 'X09': 'Partitioning is computed at compile time: ' + PURE + '.',
 'X10': 'Iterator adaptors: ' + PURE + '.',
 'X11': 'Comparisons and searches: ' + PURE + '.',
 'X12': 'Sample conversion: ' + PURE + '.',
}
