CONSTANTS MAXR = 12
          MAXB = 3
          LEN = 5
INIT Init
NEXT Next
INVARIANTS InRangeOk PrefixOk EvenOk SomeOk SmallOk GeoOk BinOk PoiOk
CHECK_DEADLOCK FALSE
