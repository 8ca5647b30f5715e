// l l' F D Om, psi sin: c0 c1, eps cos: c0 c1 (0.0001 arcsec); IAU 1980 series, 106 terms
{0.0L,0.0L,0.0L,0.0L,1.0L,-171996.0L,-174.2L,92025.0L,8.9L},
{0.0L,0.0L,0.0L,0.0L,2.0L,2062.0L,0.2L,-895.0L,0.5L},
{-2.0L,0.0L,2.0L,0.0L,1.0L,46.0L,0.0L,-24.0L,-0.0L},
{2.0L,0.0L,-2.0L,0.0L,0.0L,11.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,2.0L,-3.0L,-0.0L,1.0L,0.0L},
{1.0L,-1.0L,0.0L,-1.0L,0.0L,-3.0L,-0.0L,0.0L,0.0L},
{0.0L,-2.0L,2.0L,-2.0L,1.0L,-2.0L,-0.0L,1.0L,0.0L},
{2.0L,0.0L,-2.0L,0.0L,1.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,2.0L,-13187.0L,-1.6L,5736.0L,-3.1L},
{0.0L,1.0L,0.0L,0.0L,0.0L,1426.0L,-3.4L,54.0L,-0.1L},
{0.0L,1.0L,2.0L,-2.0L,2.0L,-517.0L,1.2L,224.0L,-0.6L},
{0.0L,-1.0L,2.0L,-2.0L,2.0L,217.0L,-0.5L,-95.0L,0.3L},
{0.0L,0.0L,2.0L,-2.0L,1.0L,129.0L,0.1L,-70.0L,-0.0L},
{2.0L,0.0L,0.0L,-2.0L,0.0L,48.0L,0.0L,1.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,0.0L,-22.0L,-0.0L,0.0L,0.0L},
{0.0L,2.0L,0.0L,0.0L,0.0L,17.0L,-0.1L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,1.0L,-15.0L,-0.0L,9.0L,0.0L},
{0.0L,2.0L,2.0L,-2.0L,2.0L,-16.0L,0.1L,7.0L,0.0L},
{0.0L,-1.0L,0.0L,0.0L,1.0L,-12.0L,-0.0L,6.0L,0.0L},
{-2.0L,0.0L,0.0L,2.0L,1.0L,-6.0L,-0.0L,3.0L,0.0L},
{0.0L,-1.0L,2.0L,-2.0L,1.0L,-5.0L,-0.0L,3.0L,0.0L},
{2.0L,0.0L,0.0L,-2.0L,1.0L,4.0L,0.0L,-2.0L,-0.0L},
{0.0L,1.0L,2.0L,-2.0L,1.0L,4.0L,0.0L,-2.0L,-0.0L},
{1.0L,0.0L,0.0L,-1.0L,0.0L,-4.0L,-0.0L,0.0L,0.0L},
{2.0L,1.0L,0.0L,-2.0L,0.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-2.0L,2.0L,1.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,-2.0L,2.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,1.0L,1.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,-2.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,0.0L,2.0L,-2274.0L,-0.2L,977.0L,-0.5L},
{1.0L,0.0L,0.0L,0.0L,0.0L,712.0L,0.1L,-7.0L,-0.0L},
{0.0L,0.0L,2.0L,0.0L,1.0L,-386.0L,-0.4L,200.0L,0.0L},
{1.0L,0.0L,2.0L,0.0L,2.0L,-301.0L,-0.0L,129.0L,-0.1L},
{1.0L,0.0L,0.0L,-2.0L,0.0L,-158.0L,-0.0L,-1.0L,-0.0L},
{-1.0L,0.0L,2.0L,0.0L,2.0L,123.0L,0.0L,-53.0L,-0.0L},
{0.0L,0.0L,0.0L,2.0L,0.0L,63.0L,0.0L,-2.0L,-0.0L},
{1.0L,0.0L,0.0L,0.0L,1.0L,63.0L,0.1L,-33.0L,-0.0L},
{-1.0L,0.0L,0.0L,0.0L,1.0L,-58.0L,-0.1L,32.0L,0.0L},
{-1.0L,0.0L,2.0L,2.0L,2.0L,-59.0L,-0.0L,26.0L,0.0L},
{1.0L,0.0L,2.0L,0.0L,1.0L,-51.0L,-0.0L,27.0L,0.0L},
{0.0L,0.0L,2.0L,2.0L,2.0L,-38.0L,-0.0L,16.0L,0.0L},
{2.0L,0.0L,0.0L,0.0L,0.0L,29.0L,0.0L,-1.0L,-0.0L},
{1.0L,0.0L,2.0L,-2.0L,2.0L,29.0L,0.0L,-12.0L,-0.0L},
{2.0L,0.0L,2.0L,0.0L,2.0L,-31.0L,-0.0L,13.0L,0.0L},
{0.0L,0.0L,2.0L,0.0L,0.0L,26.0L,0.0L,-1.0L,-0.0L},
{-1.0L,0.0L,2.0L,0.0L,1.0L,21.0L,0.0L,-10.0L,-0.0L},
{-1.0L,0.0L,0.0L,2.0L,1.0L,16.0L,0.0L,-8.0L,-0.0L},
{1.0L,0.0L,0.0L,-2.0L,1.0L,-13.0L,-0.0L,7.0L,0.0L},
{-1.0L,0.0L,2.0L,2.0L,1.0L,-10.0L,-0.0L,5.0L,0.0L},
{1.0L,1.0L,0.0L,-2.0L,0.0L,-7.0L,-0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,0.0L,2.0L,7.0L,0.0L,-3.0L,-0.0L},
{0.0L,-1.0L,2.0L,0.0L,2.0L,-7.0L,-0.0L,3.0L,0.0L},
{1.0L,0.0L,2.0L,2.0L,2.0L,-8.0L,-0.0L,3.0L,0.0L},
{1.0L,0.0L,0.0L,2.0L,0.0L,6.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,-2.0L,2.0L,6.0L,0.0L,-3.0L,-0.0L},
{0.0L,0.0L,0.0L,2.0L,1.0L,-6.0L,-0.0L,3.0L,0.0L},
{0.0L,0.0L,2.0L,2.0L,1.0L,-7.0L,-0.0L,3.0L,0.0L},
{1.0L,0.0L,2.0L,-2.0L,1.0L,6.0L,0.0L,-3.0L,-0.0L},
{0.0L,0.0L,0.0L,-2.0L,1.0L,-5.0L,-0.0L,3.0L,0.0L},
{1.0L,-1.0L,0.0L,0.0L,0.0L,5.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,0.0L,1.0L,-5.0L,-0.0L,3.0L,0.0L},
{0.0L,1.0L,0.0L,-2.0L,0.0L,-4.0L,-0.0L,0.0L,0.0L},
{1.0L,0.0L,-2.0L,0.0L,0.0L,4.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,1.0L,0.0L,-4.0L,-0.0L,0.0L,0.0L},
{1.0L,1.0L,0.0L,0.0L,0.0L,-3.0L,-0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,0.0L,0.0L,3.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,2.0L,0.0L,2.0L,-3.0L,-0.0L,1.0L,0.0L},
{-1.0L,-1.0L,2.0L,2.0L,2.0L,-3.0L,-0.0L,1.0L,0.0L},
{-2.0L,0.0L,0.0L,0.0L,1.0L,-2.0L,-0.0L,1.0L,0.0L},
{3.0L,0.0L,2.0L,0.0L,2.0L,-3.0L,-0.0L,1.0L,0.0L},
{0.0L,-1.0L,2.0L,2.0L,2.0L,-3.0L,-0.0L,1.0L,0.0L},
{1.0L,1.0L,2.0L,0.0L,2.0L,2.0L,0.0L,-1.0L,-0.0L},
{-1.0L,0.0L,2.0L,-2.0L,1.0L,-2.0L,-0.0L,1.0L,0.0L},
{2.0L,0.0L,0.0L,0.0L,1.0L,2.0L,0.0L,-1.0L,-0.0L},
{1.0L,0.0L,0.0L,0.0L,2.0L,-2.0L,-0.0L,1.0L,0.0L},
{3.0L,0.0L,0.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,1.0L,2.0L,2.0L,0.0L,-1.0L,-0.0L},
{-1.0L,0.0L,0.0L,0.0L,2.0L,1.0L,0.0L,-1.0L,-0.0L},
{1.0L,0.0L,0.0L,-4.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,2.0L,2.0L,1.0L,0.0L,-1.0L,-0.0L},
{-1.0L,0.0L,2.0L,4.0L,2.0L,-2.0L,-0.0L,1.0L,0.0L},
{2.0L,0.0L,0.0L,-4.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{1.0L,1.0L,2.0L,-2.0L,2.0L,1.0L,0.0L,-1.0L,-0.0L},
{1.0L,0.0L,2.0L,2.0L,1.0L,-1.0L,-0.0L,1.0L,0.0L},
{-2.0L,0.0L,2.0L,4.0L,2.0L,-1.0L,-0.0L,1.0L,0.0L},
{-1.0L,0.0L,4.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,0.0L,-2.0L,0.0L,1.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,-2.0L,1.0L,1.0L,0.0L,-1.0L,-0.0L},
{2.0L,0.0L,2.0L,2.0L,2.0L,-1.0L,-0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,2.0L,1.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,0.0L,4.0L,-2.0L,2.0L,1.0L,0.0L,0.0L,0.0L},
{3.0L,0.0L,2.0L,-2.0L,2.0L,1.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,-2.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,0.0L,1.0L,1.0L,0.0L,0.0L,0.0L},
{-1.0L,-1.0L,0.0L,2.0L,1.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-2.0L,0.0L,1.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-1.0L,2.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,2.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{1.0L,0.0L,-2.0L,-2.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,0.0L,1.0L,-1.0L,-0.0L,0.0L,0.0L},
{1.0L,1.0L,0.0L,-2.0L,1.0L,-1.0L,-0.0L,0.0L,0.0L},
{1.0L,0.0L,-2.0L,2.0L,0.0L,-1.0L,-0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,4.0L,2.0L,-1.0L,-0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,1.0L,0.0L,1.0L,0.0L,0.0L,0.0L},
