{0.0L,0.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,0.0L,-2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,-2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,2.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,-2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,-1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{3.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,-1.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,-2.0L,2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,1.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,1.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,1.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,1.0L,0.0L,1.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,4.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-2.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,0.0L,-2.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,4.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,4.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,-1.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{3.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{3.0L,0.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,4.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,4.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,3.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,0.0L,4.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,-1.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-1.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,1.0L,0.0L,-2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,4.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,-1.0L,0.0L,2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,-2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,0.0L,-2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,1.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{3.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,-2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,-2.0L,4.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,-1.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,-1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,-2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,3.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,1.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,1.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,2.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,-1.0L,0.0L,2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,-2.0L,2.0L,-2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,1.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,4.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,-1.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,1.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,2.0L,-1.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,2.0L,-2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,1.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,4.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,2.0L,-2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,1.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,2.0L,-1.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,-1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{4.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,1.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,2.0L,1.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,4.0L,-2.0L,2.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,1.0L,0.0L,0.0L,-1.0L,0.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,4.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{1.0L,0.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,0.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,4.0L,0.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{-1.0L,0.0L,0.0L,4.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,0.0L,2.0L,2.0L,1.0L,0.0L,0.0L,0.0L,0.0L},
{2.0L,1.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,5.0L,-5.0L,5.0L,-3.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,2.0L,0.0L},
{0.0L,0.0L,1.0L,-1.0L,1.0L,0.0L,0.0L,-1.0L,0.0L},
{0.0L,0.0L,-1.0L,1.0L,-1.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-1.0L,1.0L,0.0L,0.0L,2.0L,0.0L,0.0L},
{0.0L,0.0L,3.0L,-3.0L,3.0L,0.0L,0.0L,-1.0L,0.0L},
{0.0L,0.0L,-8.0L,8.0L,-7.0L,5.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-1.0L,1.0L,-1.0L,0.0L,2.0L,0.0L,0.0L},
{0.0L,0.0L,-2.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-6.0L,6.0L,-6.0L,4.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-2.0L,2.0L,-2.0L,0.0L,8.0L,-3.0L,0.0L},
{0.0L,0.0L,6.0L,-6.0L,6.0L,0.0L,-8.0L,3.0L,0.0L},
{0.0L,0.0L,4.0L,-4.0L,4.0L,-2.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-3.0L,3.0L,-3.0L,2.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,4.0L,-4.0L,3.0L,0.0L,-8.0L,3.0L,0.0L},
{0.0L,0.0L,-4.0L,4.0L,-5.0L,0.0L,8.0L,-3.0L,0.0L},
{0.0L,0.0L,0.0L,0.0L,0.0L,2.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,-4.0L,4.0L,-4.0L,3.0L,0.0L,0.0L,0.0L},
{0.0L,1.0L,-1.0L,1.0L,-1.0L,0.0L,0.0L,1.0L,0.0L},
{0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,1.0L,0.0L},
{0.0L,0.0L,1.0L,-1.0L,1.0L,1.0L,0.0L,0.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,2.0L,0.0L,-2.0L,0.0L,0.0L},
{0.0L,-1.0L,-7.0L,7.0L,-7.0L,5.0L,0.0L,0.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,2.0L,0.0L,0.0L,-2.0L,0.0L},
{-2.0L,0.0L,2.0L,0.0L,1.0L,0.0L,0.0L,-3.0L,0.0L},
{0.0L,0.0L,2.0L,-2.0L,2.0L,0.0L,0.0L,-2.0L,0.0L},
{0.0L,0.0L,1.0L,-1.0L,1.0L,0.0L,0.0L,1.0L,0.0L},
{0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,2.0L},
{0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,0.0L,1.0L},
{2.0L,0.0L,-2.0L,0.0L,-2.0L,0.0L,0.0L,3.0L,0.0L},
{0.0L,0.0L,1.0L,-1.0L,1.0L,0.0L,0.0L,-2.0L,0.0L},
{0.0L,0.0L,-7.0L,7.0L,-7.0L,5.0L,0.0L,0.0L,0.0L},
