T(CIE1931_X)
T(CIE1931_Y)
T(CIE1931_Z)
T(CIE1931_JuddVos_X)
T(CIE1931_JuddVos_Y)
T(CIE1931_JuddVos_Z)
T(CIE2012_X)
T(CIE2012_Y)
T(CIE2012_Z)
T(CIE_D65)
T(TM_30_15::CES01)
T(TM_30_15::CES02)
T(TM_30_15::CES03)
T(TM_30_15::CES04)
T(TM_30_15::CES05)
T(TM_30_15::CES06)
T(TM_30_15::CES07)
T(TM_30_15::CES08)
T(TM_30_15::CES09)
T(TM_30_15::CES10)
T(TM_30_15::CES11)
T(TM_30_15::CES12)
T(TM_30_15::CES13)
T(TM_30_15::CES14)
T(TM_30_15::CES15)
T(TM_30_15::CES16)
T(TM_30_15::CES17)
T(TM_30_15::CES18)
T(TM_30_15::CES19)
T(TM_30_15::CES20)
T(TM_30_15::CES21)
T(TM_30_15::CES22)
T(TM_30_15::CES23)
T(TM_30_15::CES24)
T(TM_30_15::CES25)
T(TM_30_15::CES26)
T(TM_30_15::CES27)
T(TM_30_15::CES28)
T(TM_30_15::CES29)
T(TM_30_15::CES30)
T(TM_30_15::CES31)
T(TM_30_15::CES32)
T(TM_30_15::CES33)
T(TM_30_15::CES34)
T(TM_30_15::CES35)
T(TM_30_15::CES36)
T(TM_30_15::CES37)
T(TM_30_15::CES38)
T(TM_30_15::CES39)
T(TM_30_15::CES40)
T(TM_30_15::CES41)
T(TM_30_15::CES42)
T(TM_30_15::CES43)
T(TM_30_15::CES44)
T(TM_30_15::CES45)
T(TM_30_15::CES46)
T(TM_30_15::CES47)
T(TM_30_15::CES48)
T(TM_30_15::CES49)
T(TM_30_15::CES50)
T(TM_30_15::CES51)
T(TM_30_15::CES52)
T(TM_30_15::CES53)
T(TM_30_15::CES54)
T(TM_30_15::CES55)
T(TM_30_15::CES56)
T(TM_30_15::CES57)
T(TM_30_15::CES58)
T(TM_30_15::CES59)
T(TM_30_15::CES60)
T(TM_30_15::CES61)
T(TM_30_15::CES62)
T(TM_30_15::CES63)
T(TM_30_15::CES64)
T(TM_30_15::CES65)
T(TM_30_15::CES66)
T(TM_30_15::CES67)
T(TM_30_15::CES68)
T(TM_30_15::CES69)
T(TM_30_15::CES70)
T(TM_30_15::CES71)
T(TM_30_15::CES72)
T(TM_30_15::CES73)
T(TM_30_15::CES74)
T(TM_30_15::CES75)
T(TM_30_15::CES76)
T(TM_30_15::CES77)
T(TM_30_15::CES78)
T(TM_30_15::CES79)
T(TM_30_15::CES80)
T(TM_30_15::CES81)
T(TM_30_15::CES82)
T(TM_30_15::CES83)
T(TM_30_15::CES84)
T(TM_30_15::CES85)
T(TM_30_15::CES86)
T(TM_30_15::CES87)
T(TM_30_15::CES88)
T(TM_30_15::CES89)
T(TM_30_15::CES90)
T(TM_30_15::CES91)
T(TM_30_15::CES92)
T(TM_30_15::CES93)
T(TM_30_15::CES94)
T(TM_30_15::CES95)
T(TM_30_15::CES96)
T(TM_30_15::CES97)
T(TM_30_15::CES98)
T(TM_30_15::CES99)
T(Macbeth::Macbeth01)
T(Macbeth::Macbeth02)
T(Macbeth::Macbeth03)
T(Macbeth::Macbeth04)
T(Macbeth::Macbeth05)
T(Macbeth::Macbeth06)
T(Macbeth::Macbeth11)
T(Macbeth::Macbeth12)
T(Macbeth::Macbeth13)
T(Macbeth::Macbeth14)
T(Macbeth::Macbeth15)
T(Macbeth::Macbeth16)
T(Macbeth::Macbeth21)
T(Macbeth::Macbeth22)
T(Macbeth::Macbeth23)
T(Macbeth::Macbeth24)
T(Macbeth::Macbeth25)
T(Macbeth::Macbeth26)
T(Macbeth::Macbeth31)
T(Macbeth::Macbeth32)
T(Macbeth::Macbeth33)
T(Macbeth::Macbeth34)
T(Macbeth::Macbeth35)
T(Macbeth::Macbeth36)
