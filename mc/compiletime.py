from c11 import c11
from c12 import c12
from c13 import c13
from c14 import c14
from c15 import c15
from c16 import c16
from c17 import c17
from c18 import c18
from c19 import c19
from c20 import c20
from c22 import c22
from c21 import c21
