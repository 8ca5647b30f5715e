// the 85 observing stations: identifier, name, longitude (degrees, arcmin, arcsec, west positive), latitude, height (m)
{"AAT", "Anglo-Australian 3.9m Telescope", -1, 149L, 3L, 57.91L, -1, 31L, 16L, 37.34L, 1164.0},
{"LPO4.2", "William Herschel 4.2m Telescope", +1, 17L, 52L, 53.9L, +1, 28L, 45L, 38.1L, 2332.0},
{"LPO2.5", "Isaac Newton 2.5m Telescope", +1, 17L, 52L, 39.5L, +1, 28L, 45L, 43.2L, 2336.0},
{"LPO1", "Jacobus Kapteyn 1m Telescope", +1, 17L, 52L, 41.2L, +1, 28L, 45L, 39.9L, 2364.0},
{"LICK120", "Lick 120 inch", +1, 121L, 38L, 13.689L, +1, 37L, 20L, 34.931L, 1286.0},
{"MMT", "MMT 6.5m, Mt Hopkins", +1, 110L, 53L, 4.4L, +1, 31L, 41L, 19.6L, 2608.0},
{"DAO72", "DAO Victoria BC 1.85 metre", +1, 123L, 25L, 1.18L, +1, 48L, 31L, 11.9L, 238.0},
{"DUPONT", "Du Pont 2.5m Telescope, Las Campanas", +1, 70L, 42L, 9L, -1, 29L, 0L, 11L, 2280.0},
{"MTHOP1.5", "Mt Hopkins 1.5 metre", +1, 110L, 52L, 39L, +1, 31L, 40L, 51.4L, 2344.0},
{"STROMLO74", "Mount Stromlo 74 inch", -1, 149L, 0L, 27.59L, -1, 35L, 19L, 14.3L, 767.0},
{"ANU2.3", "Siding Spring 2.3 metre", -1, 149L, 3L, 40.3L, -1, 31L, 16L, 24.1L, 1149.0},
{"GBVA140", "Greenbank 140 foot", +1, 79L, 50L, 9.61L, +1, 38L, 26L, 15.4L, 881.0},
{"TOLOLO4M", "Cerro Tololo 4 metre", +1, 70L, 48L, 53.6L, -1, 30L, 9L, 57.8L, 2235.0},
{"TOLOLO1.5M", "Cerro Tololo 1.5 metre", +1, 70L, 48L, 54.5L, -1, 30L, 9L, 56.3L, 2225.0},
{"TIDBINBLA", "Tidbinbilla 64 metre", -1, 148L, 58L, 48.2L, -1, 35L, 24L, 14.3L, 670.0},
{"BLOEMF", "Bloemfontein 1.52 metre", -1, 26L, 24L, 18L, -1, 29L, 2L, 18L, 1387.0},
{"BOSQALEGRE", "Bosque Alegre 1.54 metre", +1, 64L, 32L, 48L, -1, 31L, 35L, 53L, 1250.0},
{"FLAGSTF61", "USNO 61 inch astrograph, Flagstaff", +1, 111L, 44L, 23.6L, +1, 35L, 11L, 2.5L, 2316.0},
{"LOWELL72", "Perkins 72 inch, Lowell", +1, 111L, 32L, 9.3L, +1, 35L, 5L, 48.6L, 2198.0},
{"HARVARD", "Harvard College Observatory 1.55m", +1, 71L, 33L, 29.32L, +1, 42L, 30L, 19L, 185.0},
{"OKAYAMA", "Okayama 1.88 metre", -1, 133L, 35L, 47.29L, +1, 34L, 34L, 26.1L, 372.0},
{"KPNO158", "Kitt Peak 158 inch", +1, 111L, 35L, 57.61L, +1, 31L, 57L, 50.3L, 2120.0},
{"KPNO90", "Kitt Peak 90 inch", +1, 111L, 35L, 58.24L, +1, 31L, 57L, 46.9L, 2071.0},
{"KPNO84", "Kitt Peak 84 inch", +1, 111L, 35L, 51.56L, +1, 31L, 57L, 29.2L, 2096.0},
{"KPNO36FT", "Kitt Peak 36 foot", +1, 111L, 36L, 51.12L, +1, 31L, 57L, 12.1L, 1939.0},
{"KOTTAMIA", "Kottamia 74 inch", -1, 31L, 49L, 30L, +1, 29L, 55L, 54L, 476.0},
{"ESO3.6", "ESO 3.6 metre", +1, 70L, 43L, 36L, -1, 29L, 15L, 36L, 2428.0},
{"MAUNAK88", "Mauna Kea 88 inch", +1, 155L, 28L, 9.96L, +1, 19L, 49L, 22.77L, 4213.6},
{"UKIRT", "UK Infra Red Telescope", +1, 155L, 28L, 13.18L, +1, 19L, 49L, 20.75L, 4198.5},
{"QUEBEC1.6", "Quebec 1.6 metre", +1, 71L, 9L, 9.7L, +1, 45L, 27L, 20.6L, 1114.0},
{"MTEKAR", "Mt Ekar 1.82 metre", -1, 11L, 34L, 15L, +1, 45L, 50L, 48L, 1365.0},
{"MTLEMMON60", "Mt Lemmon 60 inch", +1, 110L, 42L, 16.9L, +1, 32L, 26L, 33.9L, 2790.0},
{"MCDONLD2.7", "McDonald 2.7 metre", +1, 104L, 1L, 17.6L, +1, 30L, 40L, 17.7L, 2075.0},
{"MCDONLD2.1", "McDonald 2.1 metre", +1, 104L, 1L, 20.1L, +1, 30L, 40L, 17.7L, 2075.0},
{"PALOMAR200", "Palomar 200 inch", +1, 116L, 51L, 50L, +1, 33L, 21L, 22L, 1706.0},
{"PALOMAR60", "Palomar 60 inch", +1, 116L, 51L, 31L, +1, 33L, 20L, 56L, 1706.0},
{"DUNLAP74", "David Dunlap 74 inch", +1, 79L, 25L, 20L, +1, 43L, 51L, 46L, 244.0},
{"HPROV1.93", "Haute Provence 1.93 metre", -1, 5L, 42L, 46.75L, +1, 43L, 55L, 53.3L, 665.0},
{"HPROV1.52", "Haute Provence 1.52 metre", -1, 5L, 42L, 43.82L, +1, 43L, 56L, 0.2L, 667.0},
{"SANPM83", "San Pedro Martir 83 inch", +1, 115L, 27L, 47L, +1, 31L, 2L, 38L, 2830.0},
{"SAAO74", "Sutherland 74 inch", -1, 20L, 48L, 44.3L, -1, 32L, 22L, 43.4L, 1771.0},
{"TAUTNBG", "Tautenburg 2 metre", -1, 11L, 42L, 45L, +1, 50L, 58L, 51L, 331.0},
{"CATALINA61", "Catalina 61 inch", +1, 110L, 43L, 55.1L, +1, 32L, 25L, 0.7L, 2510.0},
{"STEWARD90", "Steward 90 inch", +1, 111L, 35L, 58.24L, +1, 31L, 57L, 46.9L, 2071.0},
{"USSR6", "USSR 6 metre", -1, 41L, 26L, 30L, +1, 43L, 39L, 12L, 2100.0},
{"ARECIBO", "Arecibo 1000 foot", +1, 66L, 45L, 11.1L, +1, 18L, 20L, 36.6L, 496.0},
{"CAMB5KM", "Cambridge 5km", -1, 0L, 2L, 37.23L, +1, 52L, 10L, 12.2L, 17.0},
{"CAMB1MILE", "Cambridge 1 mile", -1, 0L, 2L, 21.64L, +1, 52L, 9L, 47.3L, 17.0},
{"EFFELSBERG", "Effelsberg 100 metre", -1, 6L, 53L, 1.5L, +1, 50L, 31L, 28.6L, 366.0},
{"GBVA300", "Greenbank 300 foot", +1, 79L, 50L, 56.36L, +1, 38L, 25L, 46.3L, 894.0},
{"JODRELL1", "Jodrell Bank 250 foot", +1, 2L, 18L, 25L, +1, 53L, 14L, 10.5L, 78.0},
{"PARKES", "Parkes 64 metre", -1, 148L, 15L, 44.3591L, -1, 32L, 59L, 59.8657L, 391.79},
{"VLA", "Very Large Array", +1, 107L, 37L, 3.82L, +1, 34L, 4L, 43.5L, 2124.0},
{"SUGARGROVE", "Sugar Grove 150 foot", +1, 79L, 16L, 23L, +1, 38L, 31L, 14L, 705.0},
{"USSR600", "USSR 600 foot", -1, 41L, 35L, 25.5L, +1, 43L, 49L, 32L, 973.0},
{"NOBEYAMA", "Nobeyama 45 metre", -1, 138L, 29L, 12L, +1, 35L, 56L, 19L, 1350.0},
{"JCMT", "JCMT 15 metre", +1, 155L, 28L, 37.3L, +1, 19L, 49L, 22.22L, 4124.75},
{"ESONTT", "ESO 3.5 metre NTT", +1, 70L, 43L, 7L, -1, 29L, 15L, 30L, 2377.0},
{"ST.ANDREWS", "St Andrews", +1, 2L, 48L, 52.5L, +1, 56L, 20L, 12L, 30.0},
{"APO3.5", "Apache Point 3.5m", +1, 105L, 49L, 11.56L, +1, 32L, 46L, 48.96L, 2809.0},
{"KECK1", "Keck 10m Telescope #1", +1, 155L, 28L, 28.99L, +1, 19L, 49L, 33.41L, 4160.0},
{"TAUTSCHM", "Tautenberg 1.34 metre Schmidt", -1, 11L, 42L, 45L, +1, 50L, 58L, 51L, 331.0},
{"PALOMAR48", "Palomar 48-inch Schmidt", +1, 116L, 51L, 32L, +1, 33L, 21L, 26L, 1706.0},
{"UKST", "UK 1.2 metre Schmidt, Siding Spring", -1, 149L, 4L, 12.8L, -1, 31L, 16L, 27.8L, 1145.0},
{"KISO", "Kiso 1.05 metre Schmidt, Japan", -1, 137L, 37L, 42.2L, +1, 35L, 47L, 38.7L, 1130.0},
{"ESOSCHM", "ESO 1 metre Schmidt, La Silla", +1, 70L, 43L, 46.5L, -1, 29L, 15L, 25.8L, 2347.0},
{"ATCA", "Australia Telescope Compact Array", -1, 149L, 33L, 0.5L, -1, 30L, 18L, 46.385L, 236.9},
{"MOPRA", "ATNF Mopra Observatory", -1, 149L, 5L, 58.732L, -1, 31L, 16L, 4.451L, 850.0},
{"SUBARU", "Subaru 8m telescope", +1, 155L, 28L, 33.67L, +1, 19L, 49L, 31.81L, 4163.0},
{"CFHT", "Canada-France-Hawaii 3.6m Telescope", +1, 155L, 28L, 7.95L, +1, 19L, 49L, 30.91L, 4204.1},
{"KECK2", "Keck 10m Telescope #2", +1, 155L, 28L, 27.24L, +1, 19L, 49L, 35.62L, 4159.6},
{"GEMININ", "Gemini North 8-m telescope", +1, 155L, 28L, 8.57L, +1, 19L, 49L, 25.69L, 4213.4},
{"FCRAO", "Five College Radio Astronomy Obs", +1, 72L, 20L, 42L, +1, 42L, 23L, 30L, 314.0},
{"IRTF", "NASA IR Telescope Facility, Mauna Kea", +1, 155L, 28L, 19.2L, +1, 19L, 49L, 34.39L, 4168.1},
{"CSO", "Caltech Sub-mm Observatory, Mauna Kea", +1, 155L, 28L, 31.79L, +1, 19L, 49L, 20.78L, 4080.0},
{"VLT1", "ESO VLT, Paranal, Chile: UT1", +1, 70L, 24L, 11.642L, -1, 24L, 37L, 33.117L, 2635.43},
{"VLT2", "ESO VLT, Paranal, Chile: UT2", +1, 70L, 24L, 10.855L, -1, 24L, 37L, 31.465L, 2635.43},
{"VLT3", "ESO VLT, Paranal, Chile: UT3", +1, 70L, 24L, 9.896L, -1, 24L, 37L, 30.3L, 2635.43},
{"VLT4", "ESO VLT, Paranal, Chile: UT4", +1, 70L, 24L, 8L, -1, 24L, 37L, 31L, 2635.43},
{"GEMINIS", "Gemini South 8-m telescope", +1, 70L, 44L, 11.5L, -1, 30L, 14L, 26.7L, 2738.0},
{"KOSMA3M", "KOSMA 3m telescope, Gornergrat", -1, 7L, 47L, 3.48L, +1, 45L, 58L, 59.772L, 3141.0},
{"MAGELLAN1", "Magellan 1, 6.5m, Las Campanas", +1, 70L, 41L, 31.9L, -1, 29L, 0L, 51.7L, 2408.0},
{"MAGELLAN2", "Magellan 2, 6.5m, Las Campanas", +1, 70L, 41L, 33.5L, -1, 29L, 0L, 50.3L, 2408.0},
{"APEX", "APEX 12m telescope, Llano de Chajnantor", +1, 67L, 45L, 33L, -1, 23L, 0L, 20.8L, 5105.0},
{"NANTEN2", "NANTEN2 4m telescope, Pampa la Bola", +1, 67L, 42L, 8L, -1, 22L, 57L, 47L, 4865.0},
