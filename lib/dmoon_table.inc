static const L DM_L[50][6] = {
{+6.288750L,+0.0L,+1.0L,+0.0L,+0.0L,0.0L},
{+1.274018L,+0.0L,-1.0L,+2.0L,+0.0L,0.0L},
{+0.658309L,+0.0L,+0.0L,+2.0L,+0.0L,0.0L},
{+0.213616L,+0.0L,+2.0L,+0.0L,+0.0L,0.0L},
{-0.185596L,+1.0L,+0.0L,+0.0L,+0.0L,1.0L},
{-0.114336L,+0.0L,+0.0L,+0.0L,+2.0L,0.0L},
{+0.058793L,+0.0L,-2.0L,+2.0L,+0.0L,0.0L},
{+0.057212L,-1.0L,-1.0L,+2.0L,+0.0L,1.0L},
{+0.053320L,+0.0L,+1.0L,+2.0L,+0.0L,0.0L},
{+0.045874L,-1.0L,+0.0L,+2.0L,+0.0L,1.0L},
{+0.041024L,-1.0L,+1.0L,+0.0L,+0.0L,1.0L},
{-0.034718L,+0.0L,+0.0L,+1.0L,+0.0L,0.0L},
{-0.030465L,+1.0L,+1.0L,+0.0L,+0.0L,1.0L},
{+0.015326L,+0.0L,+0.0L,+2.0L,-2.0L,0.0L},
{-0.012528L,+0.0L,+1.0L,+0.0L,+2.0L,0.0L},
{-0.010980L,+0.0L,-1.0L,+0.0L,+2.0L,0.0L},
{+0.010674L,+0.0L,-1.0L,+4.0L,+0.0L,0.0L},
{+0.010034L,+0.0L,+3.0L,+0.0L,+0.0L,0.0L},
{+0.008548L,+0.0L,-2.0L,+4.0L,+0.0L,0.0L},
{-0.007910L,+1.0L,-1.0L,+2.0L,+0.0L,1.0L},
{-0.006783L,+1.0L,+0.0L,+2.0L,+0.0L,1.0L},
{+0.005162L,+0.0L,+1.0L,-1.0L,+0.0L,0.0L},
{+0.005000L,+1.0L,+0.0L,+1.0L,+0.0L,1.0L},
{+0.004049L,-1.0L,+1.0L,+2.0L,+0.0L,1.0L},
{+0.003996L,+0.0L,+2.0L,+2.0L,+0.0L,0.0L},
{+0.003862L,+0.0L,+0.0L,+4.0L,+0.0L,0.0L},
{+0.003665L,+0.0L,-3.0L,+2.0L,+0.0L,0.0L},
{+0.002695L,-1.0L,+2.0L,+0.0L,+0.0L,1.0L},
{+0.002602L,+0.0L,+1.0L,-2.0L,-2.0L,0.0L},
{+0.002396L,-1.0L,-2.0L,+2.0L,+0.0L,1.0L},
{-0.002349L,+0.0L,+1.0L,+1.0L,+0.0L,0.0L},
{+0.002249L,-2.0L,+0.0L,+2.0L,+0.0L,2.0L},
{-0.002125L,+1.0L,+2.0L,+0.0L,+0.0L,1.0L},
{-0.002079L,+2.0L,+0.0L,+0.0L,+0.0L,2.0L},
{+0.002059L,-2.0L,-1.0L,+2.0L,+0.0L,2.0L},
{-0.001773L,+0.0L,+1.0L,+2.0L,-2.0L,0.0L},
{-0.001595L,+0.0L,+0.0L,+2.0L,+2.0L,0.0L},
{+0.001220L,-1.0L,-1.0L,+4.0L,+0.0L,1.0L},
{-0.001110L,+0.0L,+2.0L,+0.0L,+2.0L,0.0L},
{+0.000892L,+0.0L,+1.0L,-3.0L,+0.0L,0.0L},
{-0.000811L,+1.0L,+1.0L,+2.0L,+0.0L,1.0L},
{+0.000761L,-1.0L,-2.0L,+4.0L,+0.0L,1.0L},
{+0.000717L,-2.0L,+1.0L,+0.0L,+0.0L,2.0L},
{+0.000704L,-2.0L,+1.0L,-2.0L,+0.0L,2.0L},
{+0.000693L,+1.0L,-2.0L,+2.0L,+0.0L,1.0L},
{+0.000598L,-1.0L,+0.0L,+2.0L,-2.0L,1.0L},
{+0.000550L,+0.0L,+1.0L,+4.0L,+0.0L,0.0L},
{+0.000538L,+0.0L,+4.0L,+0.0L,+0.0L,0.0L},
{+0.000521L,-1.0L,+0.0L,+4.0L,+0.0L,1.0L},
{+0.000486L,+0.0L,+2.0L,-1.0L,+0.0L,0.0L},
};
static const L DM_B[45][6] = {
{+5.128189L,+0.0L,+0.0L,+0.0L,+1.0L,0.0L},
{+0.280606L,+0.0L,+1.0L,+0.0L,+1.0L,0.0L},
{+0.277693L,+0.0L,+1.0L,+0.0L,-1.0L,0.0L},
{+0.173238L,+0.0L,+0.0L,+2.0L,-1.0L,0.0L},
{+0.055413L,+0.0L,-1.0L,+2.0L,+1.0L,0.0L},
{+0.046272L,+0.0L,-1.0L,+2.0L,-1.0L,0.0L},
{+0.032573L,+0.0L,+0.0L,+2.0L,+1.0L,0.0L},
{+0.017198L,+0.0L,+2.0L,+0.0L,+1.0L,0.0L},
{+0.009267L,+0.0L,+1.0L,+2.0L,-1.0L,0.0L},
{+0.008823L,+0.0L,+2.0L,+0.0L,-1.0L,0.0L},
{+0.008247L,-1.0L,+0.0L,+2.0L,-1.0L,1.0L},
{+0.004323L,+0.0L,-2.0L,+2.0L,-1.0L,0.0L},
{+0.004200L,+0.0L,+1.0L,+2.0L,+1.0L,0.0L},
{+0.003372L,-1.0L,+0.0L,-2.0L,+1.0L,1.0L},
{+0.002472L,-1.0L,-1.0L,+2.0L,+1.0L,1.0L},
{+0.002222L,-1.0L,+0.0L,+2.0L,+1.0L,1.0L},
{+0.002072L,-1.0L,-1.0L,+2.0L,-1.0L,1.0L},
{+0.001877L,-1.0L,+1.0L,+0.0L,+1.0L,1.0L},
{+0.001828L,+0.0L,-1.0L,+4.0L,-1.0L,0.0L},
{-0.001803L,+1.0L,+0.0L,+0.0L,+1.0L,1.0L},
{-0.001750L,+0.0L,+0.0L,+0.0L,+3.0L,0.0L},
{+0.001570L,-1.0L,+1.0L,+0.0L,-1.0L,1.0L},
{-0.001487L,+0.0L,+0.0L,+1.0L,+1.0L,0.0L},
{-0.001481L,+1.0L,+1.0L,+0.0L,+1.0L,1.0L},
{+0.001417L,-1.0L,-1.0L,+0.0L,+1.0L,1.0L},
{+0.001350L,-1.0L,+0.0L,+0.0L,+1.0L,1.0L},
{+0.001330L,+0.0L,+0.0L,-1.0L,+1.0L,0.0L},
{+0.001106L,+0.0L,+3.0L,+0.0L,+1.0L,0.0L},
{+0.001020L,+0.0L,+0.0L,+4.0L,-1.0L,0.0L},
{+0.000833L,+0.0L,-1.0L,+4.0L,+1.0L,0.0L},
{+0.000781L,+0.0L,+1.0L,+0.0L,-3.0L,0.0L},
{+0.000670L,+0.0L,-2.0L,+4.0L,+1.0L,0.0L},
{+0.000606L,+0.0L,+0.0L,+2.0L,-3.0L,0.0L},
{+0.000597L,+0.0L,+2.0L,+2.0L,-1.0L,0.0L},
{+0.000492L,-1.0L,+1.0L,+2.0L,-1.0L,1.0L},
{+0.000450L,+0.0L,+2.0L,-2.0L,-1.0L,0.0L},
{+0.000439L,+0.0L,+3.0L,+0.0L,-1.0L,0.0L},
{+0.000423L,+0.0L,+2.0L,+2.0L,+1.0L,0.0L},
{+0.000422L,+0.0L,-3.0L,+2.0L,-1.0L,0.0L},
{-0.000367L,+1.0L,-1.0L,+2.0L,+1.0L,1.0L},
{-0.000353L,+1.0L,+0.0L,+2.0L,+1.0L,1.0L},
{+0.000331L,+0.0L,+0.0L,+4.0L,+1.0L,0.0L},
{+0.000317L,-1.0L,+1.0L,+2.0L,+1.0L,1.0L},
{+0.000306L,-2.0L,+0.0L,+2.0L,-1.0L,2.0L},
{-0.000283L,+0.0L,+1.0L,+0.0L,+3.0L,0.0L},
};
static const L DM_P[31][6] = {
{+0.950724L,+0.0L,+0.0L,+0.0L,+0.0L,0.0L},
{+0.051818L,+0.0L,+1.0L,+0.0L,+0.0L,0.0L},
{+0.009531L,+0.0L,-1.0L,+2.0L,+0.0L,0.0L},
{+0.007843L,+0.0L,+0.0L,+2.0L,+0.0L,0.0L},
{+0.002824L,+0.0L,+2.0L,+0.0L,+0.0L,0.0L},
{+0.000857L,+0.0L,+1.0L,+2.0L,+0.0L,0.0L},
{+0.000533L,-1.0L,+0.0L,+2.0L,+0.0L,1.0L},
{+0.000401L,-1.0L,-1.0L,+2.0L,+0.0L,1.0L},
{+0.000320L,-1.0L,+1.0L,+0.0L,+0.0L,1.0L},
{-0.000271L,+0.0L,+0.0L,+1.0L,+0.0L,0.0L},
{-0.000264L,+1.0L,+1.0L,+0.0L,+0.0L,1.0L},
{-0.000198L,+0.0L,-1.0L,+0.0L,+2.0L,0.0L},
{+0.000173L,+0.0L,+3.0L,+0.0L,+0.0L,0.0L},
{+0.000167L,+0.0L,-1.0L,+4.0L,+0.0L,0.0L},
{-0.000111L,+1.0L,+0.0L,+0.0L,+0.0L,1.0L},
{+0.000103L,+0.0L,-2.0L,+4.0L,+0.0L,0.0L},
{-0.000084L,+0.0L,+2.0L,-2.0L,+0.0L,0.0L},
{-0.000083L,+1.0L,+0.0L,+2.0L,+0.0L,1.0L},
{+0.000079L,+0.0L,+2.0L,+2.0L,+0.0L,0.0L},
{+0.000072L,+0.0L,+0.0L,+4.0L,+0.0L,0.0L},
{+0.000064L,-1.0L,+1.0L,+2.0L,+0.0L,1.0L},
{-0.000063L,+1.0L,-1.0L,+2.0L,+0.0L,1.0L},
{+0.000041L,+1.0L,+0.0L,+1.0L,+0.0L,1.0L},
{+0.000035L,-1.0L,+2.0L,+0.0L,+0.0L,1.0L},
{-0.000033L,+0.0L,+3.0L,-2.0L,+0.0L,0.0L},
{-0.000030L,+0.0L,+1.0L,+1.0L,+0.0L,0.0L},
{-0.000029L,+0.0L,+0.0L,-2.0L,+2.0L,0.0L},
{-0.000029L,+1.0L,+2.0L,+0.0L,+0.0L,1.0L},
{+0.000026L,-2.0L,+0.0L,+2.0L,+0.0L,2.0L},
{-0.000023L,+0.0L,+1.0L,-2.0L,+2.0L,0.0L},
{+0.000019L,-1.0L,-1.0L,+4.0L,+0.0L,1.0L},
};
