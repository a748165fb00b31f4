SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
INVARIANTS AsLines FinalNewline Cut Both Override
