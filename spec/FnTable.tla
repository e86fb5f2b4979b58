------------------------------ MODULE FnTable ------------------------------
\* generated by tools/mkfntable.py: <<<<function, arguments>>, value in 10^-6>>
EXTENDS Integers
LOCAL F(m, k) == [t |-> "flt", n |-> m, e |-> k]
LOCAL Rows == {
  <<<<"acos", <<F(-1, 0)>>>>, 3141593>>,
  <<<<"acos", <<F(-3, 2)>>>>, 2418858>>,
  <<<<"acos", <<F(-1, 1)>>>>, 2094395>>,
  <<<<"acos", <<F(-1, 2)>>>>, 1823477>>,
  <<<<"acos", <<F(0, 0)>>>>, 1570796>>,
  <<<<"acos", <<F(1, 2)>>>>, 1318116>>,
  <<<<"acos", <<F(1, 1)>>>>, 1047198>>,
  <<<<"acos", <<F(3, 2)>>>>, 722734>>,
  <<<<"acos", <<F(1, 0)>>>>, 0>>,
  <<<<"asin", <<F(-1, 0)>>>>, -1570796>>,
  <<<<"asin", <<F(-3, 2)>>>>, -848062>>,
  <<<<"asin", <<F(-1, 1)>>>>, -523599>>,
  <<<<"asin", <<F(-1, 2)>>>>, -252680>>,
  <<<<"asin", <<F(0, 0)>>>>, 0>>,
  <<<<"asin", <<F(1, 2)>>>>, 252680>>,
  <<<<"asin", <<F(1, 1)>>>>, 523599>>,
  <<<<"asin", <<F(3, 2)>>>>, 848062>>,
  <<<<"asin", <<F(1, 0)>>>>, 1570796>>,
  <<<<"atan", <<F(-2, 0)>>>>, -1107149>>,
  <<<<"atan", <<F(-1, 0)>>>>, -785398>>,
  <<<<"atan", <<F(-3, 2)>>>>, -643501>>,
  <<<<"atan", <<F(-1, 1)>>>>, -463648>>,
  <<<<"atan", <<F(-1, 2)>>>>, -244979>>,
  <<<<"atan", <<F(0, 0)>>>>, 0>>,
  <<<<"atan", <<F(1, 2)>>>>, 244979>>,
  <<<<"atan", <<F(1, 1)>>>>, 463648>>,
  <<<<"atan", <<F(3, 2)>>>>, 643501>>,
  <<<<"atan", <<F(1, 0)>>>>, 785398>>,
  <<<<"atan", <<F(5, 2)>>>>, 896055>>,
  <<<<"atan", <<F(3, 1)>>>>, 982794>>,
  <<<<"atan", <<F(2, 0)>>>>, 1107149>>,
  <<<<"atan", <<F(3, 0)>>>>, 1249046>>,
  <<<<"atan", <<F(4, 0)>>>>, 1325818>>,
  <<<<"atan", <<F(5, 0)>>>>, 1373401>>,
  <<<<"cos", <<F(-2, 0)>>>>, -416147>>,
  <<<<"cos", <<F(-1, 0)>>>>, 540302>>,
  <<<<"cos", <<F(-3, 2)>>>>, 731689>>,
  <<<<"cos", <<F(-1, 1)>>>>, 877583>>,
  <<<<"cos", <<F(-1, 2)>>>>, 968912>>,
  <<<<"cos", <<F(0, 0)>>>>, 1000000>>,
  <<<<"cos", <<F(1, 2)>>>>, 968912>>,
  <<<<"cos", <<F(1, 1)>>>>, 877583>>,
  <<<<"cos", <<F(3, 2)>>>>, 731689>>,
  <<<<"cos", <<F(1, 0)>>>>, 540302>>,
  <<<<"cos", <<F(5, 2)>>>>, 315322>>,
  <<<<"cos", <<F(3, 1)>>>>, 70737>>,
  <<<<"cos", <<F(2, 0)>>>>, -416147>>,
  <<<<"cos", <<F(3, 0)>>>>, -989992>>,
  <<<<"cos", <<F(4, 0)>>>>, -653644>>,
  <<<<"cos", <<F(5, 0)>>>>, 283662>>,
  <<<<"cosh", <<F(-2, 0)>>>>, 3762196>>,
  <<<<"cosh", <<F(-1, 0)>>>>, 1543081>>,
  <<<<"cosh", <<F(-3, 2)>>>>, 1294683>>,
  <<<<"cosh", <<F(-1, 1)>>>>, 1127626>>,
  <<<<"cosh", <<F(-1, 2)>>>>, 1031413>>,
  <<<<"cosh", <<F(0, 0)>>>>, 1000000>>,
  <<<<"cosh", <<F(1, 2)>>>>, 1031413>>,
  <<<<"cosh", <<F(1, 1)>>>>, 1127626>>,
  <<<<"cosh", <<F(3, 2)>>>>, 1294683>>,
  <<<<"cosh", <<F(1, 0)>>>>, 1543081>>,
  <<<<"cosh", <<F(5, 2)>>>>, 1888424>>,
  <<<<"cosh", <<F(3, 1)>>>>, 2352410>>,
  <<<<"cosh", <<F(2, 0)>>>>, 3762196>>,
  <<<<"cosh", <<F(3, 0)>>>>, 10067662>>,
  <<<<"cosh", <<F(4, 0)>>>>, 27308233>>,
  <<<<"cosh", <<F(5, 0)>>>>, 74209949>>,
  <<<<"digamma", <<F(1, 2)>>>>, -4227454>>,
  <<<<"digamma", <<F(1, 1)>>>>, -1963510>>,
  <<<<"digamma", <<F(3, 2)>>>>, -1085861>>,
  <<<<"digamma", <<F(1, 0)>>>>, -577216>>,
  <<<<"digamma", <<F(5, 2)>>>>, -227454>>,
  <<<<"digamma", <<F(3, 1)>>>>, 36490>>,
  <<<<"digamma", <<F(2, 0)>>>>, 422784>>,
  <<<<"digamma", <<F(3, 0)>>>>, 922784>>,
  <<<<"digamma", <<F(4, 0)>>>>, 1256118>>,
  <<<<"digamma", <<F(5, 0)>>>>, 1506118>>,
  <<<<"exp", <<F(-2, 0)>>>>, 135335>>,
  <<<<"exp", <<F(-1, 0)>>>>, 367879>>,
  <<<<"exp", <<F(-3, 2)>>>>, 472367>>,
  <<<<"exp", <<F(-1, 1)>>>>, 606531>>,
  <<<<"exp", <<F(-1, 2)>>>>, 778801>>,
  <<<<"exp", <<F(0, 0)>>>>, 1000000>>,
  <<<<"exp", <<F(1, 2)>>>>, 1284025>>,
  <<<<"exp", <<F(1, 1)>>>>, 1648721>>,
  <<<<"exp", <<F(3, 2)>>>>, 2117000>>,
  <<<<"exp", <<F(1, 0)>>>>, 2718282>>,
  <<<<"exp", <<F(5, 2)>>>>, 3490343>>,
  <<<<"exp", <<F(3, 1)>>>>, 4481689>>,
  <<<<"exp", <<F(2, 0)>>>>, 7389056>>,
  <<<<"exp", <<F(3, 0)>>>>, 20085537>>,
  <<<<"exp", <<F(4, 0)>>>>, 54598150>>,
  <<<<"exp", <<F(5, 0)>>>>, 148413159>>,
  <<<<"gamma", <<F(1, 2)>>>>, 3625610>>,
  <<<<"gamma", <<F(1, 1)>>>>, 1772454>>,
  <<<<"gamma", <<F(3, 2)>>>>, 1225417>>,
  <<<<"gamma", <<F(1, 0)>>>>, 1000000>>,
  <<<<"gamma", <<F(5, 2)>>>>, 906402>>,
  <<<<"gamma", <<F(3, 1)>>>>, 886227>>,
  <<<<"gamma", <<F(2, 0)>>>>, 1000000>>,
  <<<<"gamma", <<F(3, 0)>>>>, 2000000>>,
  <<<<"gamma", <<F(4, 0)>>>>, 6000000>>,
  <<<<"gamma", <<F(5, 0)>>>>, 24000000>>,
  <<<<"lgamma", <<F(1, 2)>>>>, 1288023>>,
  <<<<"lgamma", <<F(1, 1)>>>>, 572365>>,
  <<<<"lgamma", <<F(3, 2)>>>>, 203281>>,
  <<<<"lgamma", <<F(1, 0)>>>>, 0>>,
  <<<<"lgamma", <<F(5, 2)>>>>, -98272>>,
  <<<<"lgamma", <<F(3, 1)>>>>, -120782>>,
  <<<<"lgamma", <<F(2, 0)>>>>, 0>>,
  <<<<"lgamma", <<F(3, 0)>>>>, 693147>>,
  <<<<"lgamma", <<F(4, 0)>>>>, 1791759>>,
  <<<<"lgamma", <<F(5, 0)>>>>, 3178054>>,
  <<<<"log", <<F(1, 2)>>>>, -1386294>>,
  <<<<"log", <<F(1, 1)>>>>, -693147>>,
  <<<<"log", <<F(3, 2)>>>>, -287682>>,
  <<<<"log", <<F(1, 0)>>>>, 0>>,
  <<<<"log", <<F(5, 2)>>>>, 223144>>,
  <<<<"log", <<F(3, 1)>>>>, 405465>>,
  <<<<"log", <<F(2, 0)>>>>, 693147>>,
  <<<<"log", <<F(3, 0)>>>>, 1098612>>,
  <<<<"log", <<F(4, 0)>>>>, 1386294>>,
  <<<<"log", <<F(5, 0)>>>>, 1609438>>,
  <<<<"log10", <<F(1, 2)>>>>, -602060>>,
  <<<<"log10", <<F(1, 1)>>>>, -301030>>,
  <<<<"log10", <<F(3, 2)>>>>, -124939>>,
  <<<<"log10", <<F(1, 0)>>>>, 0>>,
  <<<<"log10", <<F(5, 2)>>>>, 96910>>,
  <<<<"log10", <<F(3, 1)>>>>, 176091>>,
  <<<<"log10", <<F(2, 0)>>>>, 301030>>,
  <<<<"log10", <<F(3, 0)>>>>, 477121>>,
  <<<<"log10", <<F(4, 0)>>>>, 602060>>,
  <<<<"log10", <<F(5, 0)>>>>, 698970>>,
  <<<<"sin", <<F(-2, 0)>>>>, -909297>>,
  <<<<"sin", <<F(-1, 0)>>>>, -841471>>,
  <<<<"sin", <<F(-3, 2)>>>>, -681639>>,
  <<<<"sin", <<F(-1, 1)>>>>, -479426>>,
  <<<<"sin", <<F(-1, 2)>>>>, -247404>>,
  <<<<"sin", <<F(0, 0)>>>>, 0>>,
  <<<<"sin", <<F(1, 2)>>>>, 247404>>,
  <<<<"sin", <<F(1, 1)>>>>, 479426>>,
  <<<<"sin", <<F(3, 2)>>>>, 681639>>,
  <<<<"sin", <<F(1, 0)>>>>, 841471>>,
  <<<<"sin", <<F(5, 2)>>>>, 948985>>,
  <<<<"sin", <<F(3, 1)>>>>, 997495>>,
  <<<<"sin", <<F(2, 0)>>>>, 909297>>,
  <<<<"sin", <<F(3, 0)>>>>, 141120>>,
  <<<<"sin", <<F(4, 0)>>>>, -756802>>,
  <<<<"sin", <<F(5, 0)>>>>, -958924>>,
  <<<<"sinh", <<F(-2, 0)>>>>, -3626860>>,
  <<<<"sinh", <<F(-1, 0)>>>>, -1175201>>,
  <<<<"sinh", <<F(-3, 2)>>>>, -822317>>,
  <<<<"sinh", <<F(-1, 1)>>>>, -521095>>,
  <<<<"sinh", <<F(-1, 2)>>>>, -252612>>,
  <<<<"sinh", <<F(0, 0)>>>>, 0>>,
  <<<<"sinh", <<F(1, 2)>>>>, 252612>>,
  <<<<"sinh", <<F(1, 1)>>>>, 521095>>,
  <<<<"sinh", <<F(3, 2)>>>>, 822317>>,
  <<<<"sinh", <<F(1, 0)>>>>, 1175201>>,
  <<<<"sinh", <<F(5, 2)>>>>, 1601919>>,
  <<<<"sinh", <<F(3, 1)>>>>, 2129279>>,
  <<<<"sinh", <<F(2, 0)>>>>, 3626860>>,
  <<<<"sinh", <<F(3, 0)>>>>, 10017875>>,
  <<<<"sinh", <<F(4, 0)>>>>, 27289917>>,
  <<<<"sinh", <<F(5, 0)>>>>, 74203211>>,
  <<<<"tan", <<F(-2, 0)>>>>, 2185040>>,
  <<<<"tan", <<F(-1, 0)>>>>, -1557408>>,
  <<<<"tan", <<F(-3, 2)>>>>, -931596>>,
  <<<<"tan", <<F(-1, 1)>>>>, -546302>>,
  <<<<"tan", <<F(-1, 2)>>>>, -255342>>,
  <<<<"tan", <<F(0, 0)>>>>, 0>>,
  <<<<"tan", <<F(1, 2)>>>>, 255342>>,
  <<<<"tan", <<F(1, 1)>>>>, 546302>>,
  <<<<"tan", <<F(3, 2)>>>>, 931596>>,
  <<<<"tan", <<F(1, 0)>>>>, 1557408>>,
  <<<<"tan", <<F(5, 2)>>>>, 3009570>>,
  <<<<"tan", <<F(3, 1)>>>>, 14101420>>,
  <<<<"tan", <<F(2, 0)>>>>, -2185040>>,
  <<<<"tan", <<F(3, 0)>>>>, -142547>>,
  <<<<"tan", <<F(4, 0)>>>>, 1157821>>,
  <<<<"tan", <<F(5, 0)>>>>, -3380515>>,
  <<<<"tanh", <<F(-2, 0)>>>>, -964028>>,
  <<<<"tanh", <<F(-1, 0)>>>>, -761594>>,
  <<<<"tanh", <<F(-3, 2)>>>>, -635149>>,
  <<<<"tanh", <<F(-1, 1)>>>>, -462117>>,
  <<<<"tanh", <<F(-1, 2)>>>>, -244919>>,
  <<<<"tanh", <<F(0, 0)>>>>, 0>>,
  <<<<"tanh", <<F(1, 2)>>>>, 244919>>,
  <<<<"tanh", <<F(1, 1)>>>>, 462117>>,
  <<<<"tanh", <<F(3, 2)>>>>, 635149>>,
  <<<<"tanh", <<F(1, 0)>>>>, 761594>>,
  <<<<"tanh", <<F(5, 2)>>>>, 848284>>,
  <<<<"tanh", <<F(3, 1)>>>>, 905148>>,
  <<<<"tanh", <<F(2, 0)>>>>, 964028>>,
  <<<<"tanh", <<F(3, 0)>>>>, 995055>>,
  <<<<"tanh", <<F(4, 0)>>>>, 999329>>,
  <<<<"tanh", <<F(5, 0)>>>>, 999909>>,
  <<<<"atan2", <<F(-1, 0), F(-1, 1)>>>>, -2034444>>,
  <<<<"atan2", <<F(-1, 0), F(1, 1)>>>>, -1107149>>,
  <<<<"atan2", <<F(-1, 0), F(1, 0)>>>>, -785398>>,
  <<<<"atan2", <<F(-1, 1), F(-1, 1)>>>>, -2356194>>,
  <<<<"atan2", <<F(-1, 1), F(1, 1)>>>>, -785398>>,
  <<<<"atan2", <<F(-1, 1), F(1, 0)>>>>, -463648>>,
  <<<<"atan2", <<F(1, 1), F(-1, 1)>>>>, 2356194>>,
  <<<<"atan2", <<F(1, 1), F(1, 1)>>>>, 785398>>,
  <<<<"atan2", <<F(1, 1), F(1, 0)>>>>, 463648>>,
  <<<<"atan2", <<F(3, 1), F(-1, 1)>>>>, 1892547>>,
  <<<<"atan2", <<F(3, 1), F(1, 1)>>>>, 1249046>>,
  <<<<"atan2", <<F(3, 1), F(1, 0)>>>>, 982794>>,
  <<<<"besselj", <<[t |-> "int", n |-> 0], F(1, 1)>>>>, 938470>>,
  <<<<"bessely", <<[t |-> "int", n |-> 0], F(1, 1)>>>>, -444519>>,
  <<<<"besselj", <<[t |-> "int", n |-> 0], F(1, 0)>>>>, 765198>>,
  <<<<"bessely", <<[t |-> "int", n |-> 0], F(1, 0)>>>>, 88257>>,
  <<<<"besselj", <<[t |-> "int", n |-> 0], F(2, 0)>>>>, 223891>>,
  <<<<"bessely", <<[t |-> "int", n |-> 0], F(2, 0)>>>>, 510376>>,
  <<<<"besselj", <<[t |-> "int", n |-> 0], F(3, 0)>>>>, -260052>>,
  <<<<"bessely", <<[t |-> "int", n |-> 0], F(3, 0)>>>>, 376850>>,
  <<<<"besselj", <<[t |-> "int", n |-> 0], F(4, 0)>>>>, -397150>>,
  <<<<"bessely", <<[t |-> "int", n |-> 0], F(4, 0)>>>>, -16941>>,
  <<<<"besselj", <<[t |-> "int", n |-> 0], F(6, 0)>>>>, 150645>>,
  <<<<"bessely", <<[t |-> "int", n |-> 0], F(6, 0)>>>>, -288195>>,
  <<<<"besselj", <<[t |-> "int", n |-> 1], F(1, 1)>>>>, 242268>>,
  <<<<"bessely", <<[t |-> "int", n |-> 1], F(1, 1)>>>>, -1471472>>,
  <<<<"besselj", <<[t |-> "int", n |-> 1], F(1, 0)>>>>, 440051>>,
  <<<<"bessely", <<[t |-> "int", n |-> 1], F(1, 0)>>>>, -781213>>,
  <<<<"besselj", <<[t |-> "int", n |-> 1], F(2, 0)>>>>, 576725>>,
  <<<<"bessely", <<[t |-> "int", n |-> 1], F(2, 0)>>>>, -107032>>,
  <<<<"besselj", <<[t |-> "int", n |-> 1], F(3, 0)>>>>, 339059>>,
  <<<<"bessely", <<[t |-> "int", n |-> 1], F(3, 0)>>>>, 324674>>,
  <<<<"besselj", <<[t |-> "int", n |-> 1], F(4, 0)>>>>, -66043>>,
  <<<<"bessely", <<[t |-> "int", n |-> 1], F(4, 0)>>>>, 397926>>,
  <<<<"besselj", <<[t |-> "int", n |-> 1], F(6, 0)>>>>, -276684>>,
  <<<<"bessely", <<[t |-> "int", n |-> 1], F(6, 0)>>>>, -175010>>,
  <<<<"besselj", <<[t |-> "int", n |-> 2], F(1, 1)>>>>, 30604>>,
  <<<<"bessely", <<[t |-> "int", n |-> 2], F(1, 1)>>>>, -5441371>>,
  <<<<"besselj", <<[t |-> "int", n |-> 2], F(1, 0)>>>>, 114903>>,
  <<<<"bessely", <<[t |-> "int", n |-> 2], F(1, 0)>>>>, -1650683>>,
  <<<<"besselj", <<[t |-> "int", n |-> 2], F(2, 0)>>>>, 352834>>,
  <<<<"bessely", <<[t |-> "int", n |-> 2], F(2, 0)>>>>, -617408>>,
  <<<<"besselj", <<[t |-> "int", n |-> 2], F(3, 0)>>>>, 486091>>,
  <<<<"bessely", <<[t |-> "int", n |-> 2], F(3, 0)>>>>, -160400>>,
  <<<<"besselj", <<[t |-> "int", n |-> 2], F(4, 0)>>>>, 364128>>,
  <<<<"bessely", <<[t |-> "int", n |-> 2], F(4, 0)>>>>, 215904>>,
  <<<<"besselj", <<[t |-> "int", n |-> 2], F(6, 0)>>>>, -242873>>,
  <<<<"bessely", <<[t |-> "int", n |-> 2], F(6, 0)>>>>, 229858>>,
  <<<<"besselj", <<[t |-> "int", n |-> 3], F(1, 1)>>>>, 2564>>,
  <<<<"bessely", <<[t |-> "int", n |-> 3], F(1, 1)>>>>, -42059494>>,
  <<<<"besselj", <<[t |-> "int", n |-> 3], F(1, 0)>>>>, 19563>>,
  <<<<"bessely", <<[t |-> "int", n |-> 3], F(1, 0)>>>>, -5821518>>,
  <<<<"besselj", <<[t |-> "int", n |-> 3], F(2, 0)>>>>, 128943>>,
  <<<<"bessely", <<[t |-> "int", n |-> 3], F(2, 0)>>>>, -1127784>>,
  <<<<"besselj", <<[t |-> "int", n |-> 3], F(3, 0)>>>>, 309063>>,
  <<<<"bessely", <<[t |-> "int", n |-> 3], F(3, 0)>>>>, -538542>>,
  <<<<"besselj", <<[t |-> "int", n |-> 3], F(4, 0)>>>>, 430171>>,
  <<<<"bessely", <<[t |-> "int", n |-> 3], F(4, 0)>>>>, -182022>>,
  <<<<"besselj", <<[t |-> "int", n |-> 3], F(6, 0)>>>>, 114768>>,
  <<<<"bessely", <<[t |-> "int", n |-> 3], F(6, 0)>>>>, 328249>>,
  <<<<"normal", <<F(-2, 0), F(1, 0), F(0, 0)>>>>, 135335>>,
  <<<<"normal", <<F(-2, 0), F(1, 0), F(1, 0)>>>>, 11109>>,
  <<<<"normal", <<F(-2, 0), F(2, 0), F(0, 0)>>>>, 606531>>,
  <<<<"normal", <<F(-2, 0), F(2, 0), F(1, 0)>>>>, 324652>>,
  <<<<"normal", <<F(0, 0), F(1, 0), F(0, 0)>>>>, 1000000>>,
  <<<<"normal", <<F(0, 0), F(1, 0), F(1, 0)>>>>, 606531>>,
  <<<<"normal", <<F(0, 0), F(2, 0), F(0, 0)>>>>, 1000000>>,
  <<<<"normal", <<F(0, 0), F(2, 0), F(1, 0)>>>>, 882497>>,
  <<<<"normal", <<F(1, 0), F(1, 0), F(0, 0)>>>>, 606531>>,
  <<<<"normal", <<F(1, 0), F(1, 0), F(1, 0)>>>>, 1000000>>,
  <<<<"normal", <<F(1, 0), F(2, 0), F(0, 0)>>>>, 882497>>,
  <<<<"normal", <<F(1, 0), F(2, 0), F(1, 0)>>>>, 1000000>>,
  <<<<"normal", <<F(3, 0), F(1, 0), F(0, 0)>>>>, 11109>>,
  <<<<"normal", <<F(3, 0), F(1, 0), F(1, 0)>>>>, 135335>>,
  <<<<"normal", <<F(3, 0), F(2, 0), F(0, 0)>>>>, 324652>>,
  <<<<"normal", <<F(3, 0), F(2, 0), F(1, 0)>>>>, 606531>>}
TableFunctions == {"acos", "asin", "atan", "cos", "cosh", "digamma", "exp", "gamma", "lgamma", "log", "log10", "sin", "sinh", "tan", "tanh"}
FnValue == [k \in {r[1] : r \in Rows} |-> (CHOOSE r \in Rows : r[1] = k)[2]]
=============================================================================
