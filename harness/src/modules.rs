modules! {
    m01 "m01",
    m02 "m02",
    m03 "m03",
    m04 "m04",
    m05 "m05",
    m06 "m06",
    m07 "m07",
    m08 "m08",
    m09 "m09",
    m10 "m10",
    m11 "m11",
    m12 "m12",
    m13 "m13",
    m14 "m14",
    m15 "m15",
    m16 "m16",
    m17 "m17",
    m18 "m18",
    m20 "m20",
    m21 "m21",
    m22 "m22",
    m23 "m23",
    z01 "z01",
    z02 "z02",
    z03 "z03",
    z04 "z04",
    z05 "z05",
    z06 "z06",
    z07 "z07",
    z08 "z08",
    z09 "z09",
}
