CONSTANTS MAXR = 8
          MAXB = 2
          LEN = 4
INIT Init
NEXT Next
INVARIANTS InRangeOk PrefixOk EvenOk SomeOk SmallOk GeoOk BinOk PoiOk
CHECK_DEADLOCK FALSE
