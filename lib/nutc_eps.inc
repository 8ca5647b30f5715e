{9205365.8L,-1506.2L,885.7L,-0.2L},
{573095.9L,-570.2L,-305.0L,-0.3L},
{97845.5L,147.8L,-48.8L,-0.2L},
{-89753.6L,28.0L,46.9L,0.0L},
{7406.7L,-327.1L,-18.2L,0.8L},
{22442.3L,-22.3L,-67.6L,0.0L},
{-683.6L,46.8L,0.0L,0.0L},
{20070.7L,36.0L,1.6L,0.0L},
{12893.8L,39.5L,-6.2L,0.0L},
{-9593.2L,14.4L,30.2L,-0.1L},
{-6899.5L,4.8L,-0.6L,0.0L},
{-5332.5L,-0.1L,2.7L,0.0L},
{-125.2L,10.5L,0.0L,0.0L},
{-3323.4L,-0.9L,-0.3L,0.0L},
{3142.3L,8.9L,0.3L,0.0L},
{2552.5L,7.3L,-1.2L,0.0L},
{2634.4L,8.8L,0.2L,0.0L},
{-2424.4L,1.6L,-0.4L,0.0L},
{-123.3L,3.9L,0.0L,0.0L},
{1642.4L,7.3L,-0.8L,0.0L},
{47.9L,3.2L,0.0L,0.0L},
{1321.2L,6.2L,-0.6L,0.0L},
{-1234.1L,-0.3L,0.6L,0.0L},
{-1076.5L,-0.3L,0.0L,0.0L},
{-61.6L,1.8L,0.0L,0.0L},
{-55.4L,1.6L,0.0L,0.0L},
{856.9L,-4.9L,-2.1L,0.0L},
{-800.7L,-0.1L,0.0L,0.0L},
{685.1L,-0.6L,-3.8L,0.0L},
{-16.9L,-1.5L,0.0L,0.0L},
{695.7L,1.8L,0.0L,0.0L},
{642.2L,-2.6L,-1.6L,0.0L},
{13.3L,1.1L,-0.1L,0.0L},
{521.9L,1.6L,0.0L,0.0L},
{325.8L,2.0L,-0.1L,0.0L},
{-325.1L,-0.5L,0.9L,0.0L},
{10.1L,0.3L,0.0L,0.0L},
{334.5L,1.6L,0.0L,0.0L},
{307.1L,0.4L,-0.9L,0.0L},
{327.2L,0.5L,0.0L,0.0L},
{-304.6L,-0.1L,0.0L,0.0L},
{304.0L,0.6L,0.0L,0.0L},
{-276.8L,-0.5L,0.1L,0.0L},
{268.9L,1.3L,0.0L,0.0L},
{271.8L,1.1L,0.0L,0.0L},
{271.5L,-0.4L,-0.8L,0.0L},
{-5.2L,0.5L,0.0L,0.0L},
{-220.5L,0.1L,0.0L,0.0L},
{-20.1L,0.3L,0.0L,0.0L},
{-191.0L,0.1L,0.5L,0.0L},
{-4.1L,0.3L,0.0L,0.0L},
{130.6L,-0.1L,0.0L,0.0L},
{3.0L,0.3L,0.0L,0.0L},
{122.9L,0.8L,0.0L,0.0L},
{3.7L,-0.3L,0.0L,0.0L},
{123.1L,0.4L,-0.3L,0.0L},
{-52.7L,15.3L,0.0L,0.0L},
{120.7L,0.3L,-0.3L,0.0L},
{4.0L,-0.3L,0.0L,0.0L},
{126.5L,0.5L,0.0L,0.0L},
{112.7L,0.5L,-0.3L,0.0L},
{-106.1L,-0.3L,0.3L,0.0L},
{-112.9L,-0.2L,0.0L,0.0L},
{3.6L,-0.2L,0.0L,0.0L},
{107.4L,0.3L,0.0L,0.0L},
{-10.9L,0.2L,0.0L,0.0L},
{-0.9L,0.0L,0.0L,0.0L},
{85.4L,0.0L,0.0L,0.0L},
{0.0L,-88.8L,0.0L,0.0L},
{-71.0L,-0.2L,0.0L,0.0L},
{-70.3L,0.0L,0.0L,0.0L},
{64.5L,0.4L,0.0L,0.0L},
{69.8L,0.0L,0.0L,0.0L},
{66.1L,0.4L,0.0L,0.0L},
{-61.0L,-0.2L,0.0L,0.0L},
{-59.5L,-0.1L,0.0L,0.0L},
{-55.6L,0.0L,0.2L,0.0L},
{51.7L,0.2L,0.0L,0.0L},
{-49.0L,-0.1L,0.0L,0.0L},
{-52.7L,-0.1L,0.0L,0.0L},
{-49.6L,1.4L,0.0L,0.0L},
{46.3L,0.4L,0.0L,0.0L},
{49.6L,0.1L,0.0L,0.0L},
{-5.1L,0.1L,0.0L,0.0L},
{-44.0L,-0.1L,0.0L,0.0L},
{-39.9L,-0.1L,0.0L,0.0L},
{-39.5L,-0.1L,0.0L,0.0L},
{-3.9L,0.1L,0.0L,0.0L},
{-42.1L,-0.1L,0.0L,0.0L},
{-17.2L,0.1L,0.0L,0.0L},
{-2.3L,0.1L,0.0L,0.0L},
{-39.2L,0.0L,0.0L,0.0L},
{-38.4L,0.1L,0.0L,0.0L},
{36.8L,0.2L,0.0L,0.0L},
{34.6L,0.1L,0.0L,0.0L},
{-32.7L,0.3L,0.0L,0.0L},
{30.4L,0.0L,0.0L,0.0L},
{0.4L,0.1L,0.0L,0.0L},
{29.3L,0.2L,0.0L,0.0L},
{31.6L,0.1L,0.0L,0.0L},
{0.8L,-0.1L,0.0L,0.0L},
{-27.9L,0.0L,0.0L,0.0L},
{2.9L,0.0L,0.0L,0.0L},
{-25.3L,0.0L,0.0L,0.0L},
{25.0L,0.1L,0.0L,0.0L},
{27.5L,0.1L,0.0L,0.0L},
{-24.4L,-0.1L,0.0L,0.0L},
{24.9L,0.2L,0.0L,0.0L},
{-22.8L,-0.1L,0.0L,0.0L},
{0.9L,-0.1L,0.0L,0.0L},
{24.4L,0.1L,0.0L,0.0L},
{23.9L,0.1L,0.0L,0.0L},
{22.5L,0.1L,0.0L,0.0L},
{20.8L,0.1L,0.0L,0.0L},
{20.1L,0.0L,0.0L,0.0L},
{21.5L,0.1L,0.0L,0.0L},
{-20.0L,0.0L,0.0L,0.0L},
{1.4L,0.0L,0.0L,0.0L},
{-0.2L,-0.1L,0.0L,0.0L},
{19.0L,0.0L,-0.1L,0.0L},
{20.5L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,0.0L,0.0L},
{-17.6L,-0.1L,0.0L,0.0L},
{19.0L,0.0L,0.0L,0.0L},
{-2.4L,0.0L,0.0L,0.0L},
{-18.4L,-0.1L,0.0L,0.0L},
{17.1L,0.0L,0.0L,0.0L},
{0.4L,0.0L,0.0L,0.0L},
{18.4L,0.1L,0.0L,0.0L},
{0.0L,17.4L,0.0L,0.0L},
{-0.6L,0.0L,0.0L,0.0L},
{-15.4L,0.0L,0.0L,0.0L},
{-16.8L,-0.1L,0.0L,0.0L},
{16.3L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,0.0L,0.0L},
{-1.5L,0.0L,0.0L,0.0L},
{-14.3L,-0.1L,0.0L,0.0L},
{14.4L,0.0L,0.0L,0.0L},
{-13.4L,0.0L,0.0L,0.0L},
{-14.3L,-0.1L,0.0L,0.0L},
{-13.7L,0.0L,0.0L,0.0L},
{13.1L,0.1L,0.0L,0.0L},
{-1.7L,0.0L,0.0L,0.0L},
{-12.8L,0.0L,0.0L,0.0L},
{0.0L,-14.4L,0.0L,0.0L},
{12.4L,0.0L,0.0L,0.0L},
{-12.0L,0.0L,0.0L,0.0L},
{-0.8L,0.0L,0.0L,0.0L},
{10.9L,0.1L,0.0L,0.0L},
{-10.8L,0.0L,0.0L,0.0L},
{10.5L,0.0L,0.0L,0.0L},
{-10.4L,0.0L,0.0L,0.0L},
{-11.2L,0.0L,0.0L,0.0L},
{10.5L,0.1L,0.0L,0.0L},
{-1.4L,0.0L,0.0L,0.0L},
{0.0L,0.1L,0.0L,0.0L},
{0.7L,0.0L,0.0L,0.0L},
{-10.3L,0.0L,0.0L,0.0L},
{-10.0L,0.0L,0.0L,0.0L},
{9.6L,0.0L,0.0L,0.0L},
{9.4L,0.1L,0.0L,0.0L},
{0.6L,0.0L,0.0L,0.0L},
{-87.7L,4.4L,-0.4L,-6.3L},
{46.3L,22.4L,0.5L,-2.4L},
{15.6L,-3.4L,0.1L,0.4L},
{5.2L,5.8L,0.2L,-0.1L},
{-30.1L,26.9L,0.7L,0.0L},
{23.2L,-0.5L,0.0L,0.6L},
{1.0L,23.2L,3.4L,0.0L},
{-12.2L,-4.3L,0.0L,0.0L},
{-2.1L,-3.7L,-0.2L,0.1L},
{-18.6L,-3.8L,-0.4L,1.8L},
{5.5L,-18.7L,-1.8L,-0.5L},
{-5.5L,-18.7L,1.8L,-0.5L},
{18.4L,-3.6L,0.3L,0.9L},
{-0.6L,1.3L,0.0L,0.0L},
{-5.6L,-19.5L,1.9L,0.0L},
{5.5L,-19.1L,-1.9L,0.0L},
{-17.3L,-0.8L,0.0L,0.9L},
{-3.2L,-8.3L,-0.8L,0.3L},
{-0.1L,0.0L,0.0L,0.0L},
{-5.4L,7.8L,-0.3L,0.0L},
{-14.8L,1.4L,0.0L,0.3L},
{-3.8L,0.4L,0.0L,-0.2L},
{12.6L,3.2L,0.5L,-1.5L},
{0.1L,0.0L,0.0L,0.0L},
{-13.6L,2.4L,-0.1L,0.0L},
{0.9L,1.2L,0.0L,0.0L},
{-11.9L,-0.5L,0.0L,0.3L},
{0.4L,12.0L,0.3L,-0.2L},
{8.3L,6.1L,-0.1L,0.1L},
{0.0L,0.0L,0.0L,0.0L},
{0.4L,-10.8L,0.3L,0.0L},
{9.6L,2.2L,0.3L,-1.2L},
