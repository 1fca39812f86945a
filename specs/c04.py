"""C04: every element constructed is destroyed exactly once.  The member functions of sequence run on elements
whose constructors, destructor and assignments are obligations about their lifetime."""
import c03
UNITS = c03.TRACKED
