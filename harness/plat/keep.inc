// every rounding field x precision field x infinity field x (no, all, one, all but one masked exception)
KEEP(0)
KEEP(524319)
KEEP(1)
KEEP(2)
KEEP(4)
KEEP(8)
KEEP(16)
KEEP(524288)
KEEP(524318)
KEEP(524317)
KEEP(524315)
KEEP(524311)
KEEP(524303)
KEEP(31)
KEEP(262144)
KEEP(786463)
KEEP(262145)
KEEP(262146)
KEEP(262148)
KEEP(262152)
KEEP(262160)
KEEP(786432)
KEEP(786462)
KEEP(786461)
KEEP(786459)
KEEP(786455)
KEEP(786447)
KEEP(262175)
KEEP(65536)
KEEP(589855)
KEEP(65537)
KEEP(65538)
KEEP(65540)
KEEP(65544)
KEEP(65552)
KEEP(589824)
KEEP(589854)
KEEP(589853)
KEEP(589851)
KEEP(589847)
KEEP(589839)
KEEP(65567)
KEEP(327680)
KEEP(851999)
KEEP(327681)
KEEP(327682)
KEEP(327684)
KEEP(327688)
KEEP(327696)
KEEP(851968)
KEEP(851998)
KEEP(851997)
KEEP(851995)
KEEP(851991)
KEEP(851983)
KEEP(327711)
KEEP(131072)
KEEP(655391)
KEEP(131073)
KEEP(131074)
KEEP(131076)
KEEP(131080)
KEEP(131088)
KEEP(655360)
KEEP(655390)
KEEP(655389)
KEEP(655387)
KEEP(655383)
KEEP(655375)
KEEP(131103)
KEEP(393216)
KEEP(917535)
KEEP(393217)
KEEP(393218)
KEEP(393220)
KEEP(393224)
KEEP(393232)
KEEP(917504)
KEEP(917534)
KEEP(917533)
KEEP(917531)
KEEP(917527)
KEEP(917519)
KEEP(393247)
KEEP(256)
KEEP(524575)
KEEP(257)
KEEP(258)
KEEP(260)
KEEP(264)
KEEP(272)
KEEP(524544)
KEEP(524574)
KEEP(524573)
KEEP(524571)
KEEP(524567)
KEEP(524559)
KEEP(287)
KEEP(262400)
KEEP(786719)
KEEP(262401)
KEEP(262402)
KEEP(262404)
KEEP(262408)
KEEP(262416)
KEEP(786688)
KEEP(786718)
KEEP(786717)
KEEP(786715)
KEEP(786711)
KEEP(786703)
KEEP(262431)
KEEP(65792)
KEEP(590111)
KEEP(65793)
KEEP(65794)
KEEP(65796)
KEEP(65800)
KEEP(65808)
KEEP(590080)
KEEP(590110)
KEEP(590109)
KEEP(590107)
KEEP(590103)
KEEP(590095)
KEEP(65823)
KEEP(327936)
KEEP(852255)
KEEP(327937)
KEEP(327938)
KEEP(327940)
KEEP(327944)
KEEP(327952)
KEEP(852224)
KEEP(852254)
KEEP(852253)
KEEP(852251)
KEEP(852247)
KEEP(852239)
KEEP(327967)
KEEP(131328)
KEEP(655647)
KEEP(131329)
KEEP(131330)
KEEP(131332)
KEEP(131336)
KEEP(131344)
KEEP(655616)
KEEP(655646)
KEEP(655645)
KEEP(655643)
KEEP(655639)
KEEP(655631)
KEEP(131359)
KEEP(393472)
KEEP(917791)
KEEP(393473)
KEEP(393474)
KEEP(393476)
KEEP(393480)
KEEP(393488)
KEEP(917760)
KEEP(917790)
KEEP(917789)
KEEP(917787)
KEEP(917783)
KEEP(917775)
KEEP(393503)
KEEP(512)
KEEP(524831)
KEEP(513)
KEEP(514)
KEEP(516)
KEEP(520)
KEEP(528)
KEEP(524800)
KEEP(524830)
KEEP(524829)
KEEP(524827)
KEEP(524823)
KEEP(524815)
KEEP(543)
KEEP(262656)
KEEP(786975)
KEEP(262657)
KEEP(262658)
KEEP(262660)
KEEP(262664)
KEEP(262672)
KEEP(786944)
KEEP(786974)
KEEP(786973)
KEEP(786971)
KEEP(786967)
KEEP(786959)
KEEP(262687)
KEEP(66048)
KEEP(590367)
KEEP(66049)
KEEP(66050)
KEEP(66052)
KEEP(66056)
KEEP(66064)
KEEP(590336)
KEEP(590366)
KEEP(590365)
KEEP(590363)
KEEP(590359)
KEEP(590351)
KEEP(66079)
KEEP(328192)
KEEP(852511)
KEEP(328193)
KEEP(328194)
KEEP(328196)
KEEP(328200)
KEEP(328208)
KEEP(852480)
KEEP(852510)
KEEP(852509)
KEEP(852507)
KEEP(852503)
KEEP(852495)
KEEP(328223)
KEEP(131584)
KEEP(655903)
KEEP(131585)
KEEP(131586)
KEEP(131588)
KEEP(131592)
KEEP(131600)
KEEP(655872)
KEEP(655902)
KEEP(655901)
KEEP(655899)
KEEP(655895)
KEEP(655887)
KEEP(131615)
KEEP(393728)
KEEP(918047)
KEEP(393729)
KEEP(393730)
KEEP(393732)
KEEP(393736)
KEEP(393744)
KEEP(918016)
KEEP(918046)
KEEP(918045)
KEEP(918043)
KEEP(918039)
KEEP(918031)
KEEP(393759)
KEEP(768)
KEEP(525087)
KEEP(769)
KEEP(770)
KEEP(772)
KEEP(776)
KEEP(784)
KEEP(525056)
KEEP(525086)
KEEP(525085)
KEEP(525083)
KEEP(525079)
KEEP(525071)
KEEP(799)
KEEP(262912)
KEEP(787231)
KEEP(262913)
KEEP(262914)
KEEP(262916)
KEEP(262920)
KEEP(262928)
KEEP(787200)
KEEP(787230)
KEEP(787229)
KEEP(787227)
KEEP(787223)
KEEP(787215)
KEEP(262943)
KEEP(66304)
KEEP(590623)
KEEP(66305)
KEEP(66306)
KEEP(66308)
KEEP(66312)
KEEP(66320)
KEEP(590592)
KEEP(590622)
KEEP(590621)
KEEP(590619)
KEEP(590615)
KEEP(590607)
KEEP(66335)
KEEP(328448)
KEEP(852767)
KEEP(328449)
KEEP(328450)
KEEP(328452)
KEEP(328456)
KEEP(328464)
KEEP(852736)
KEEP(852766)
KEEP(852765)
KEEP(852763)
KEEP(852759)
KEEP(852751)
KEEP(328479)
KEEP(131840)
KEEP(656159)
KEEP(131841)
KEEP(131842)
KEEP(131844)
KEEP(131848)
KEEP(131856)
KEEP(656128)
KEEP(656158)
KEEP(656157)
KEEP(656155)
KEEP(656151)
KEEP(656143)
KEEP(131871)
KEEP(393984)
KEEP(918303)
KEEP(393985)
KEEP(393986)
KEEP(393988)
KEEP(393992)
KEEP(394000)
KEEP(918272)
KEEP(918302)
KEEP(918301)
KEEP(918299)
KEEP(918295)
KEEP(918287)
KEEP(394015)
