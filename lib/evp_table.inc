static const L DCFEL[8][3] = {
{1.7400353e+00L,6.2833195099091e+02L,5.2796e-06L},
{6.2565836e+00L,6.2830194572674e+02L,-2.6180e-06L},
{4.7199666e+00L,8.3997091449254e+03L,-1.9780e-05L},
{1.9636505e-01L,8.4334662911720e+03L,-5.6044e-05L},
{4.1547339e+00L,5.2993466764997e+01L,5.8845e-06L},
{4.6524223e+00L,2.1354275911213e+01L,5.6797e-06L},
{4.2620486e+00L,7.5025342197656e+00L,5.5317e-06L},
{1.4740694e+00L,3.8377331909193e+00L,5.6093e-06L},
};
static const L CCSEL[17][3] = {
{1.675104e-02L,-4.179579e-05L,-1.260516e-07L},
{2.220221e-01L,2.809917e-02L,1.852532e-05L},
{1.589963e+00L,3.418075e-02L,1.430200e-05L},
{2.994089e+00L,2.590824e-02L,4.155840e-06L},
{8.155457e-01L,2.486352e-02L,6.836840e-06L},
{1.735614e+00L,1.763719e-02L,6.370440e-06L},
{1.968564e+00L,1.524020e-02L,-2.517152e-06L},
{1.282417e+00L,8.703393e-03L,2.289292e-05L},
{2.280820e+00L,1.918010e-02L,4.484520e-06L},
{4.833473e-02L,1.641773e-04L,-4.654200e-07L},
{5.589232e-02L,-3.455092e-04L,-7.388560e-07L},
{4.634443e-02L,-2.658234e-05L,7.757000e-08L},
{8.997041e-03L,6.329728e-06L,-1.939256e-09L},
{2.284178e-02L,-9.941590e-05L,6.787400e-08L},
{4.350267e-02L,-6.839749e-05L,-2.714956e-07L},
{1.348204e-02L,1.091504e-05L,6.903760e-07L},
{3.106570e-02L,-1.665665e-04L,-1.590188e-07L},
};
static const L DCARGS[15][2] = {
{5.0974222e+00L,-7.8604195454652e+02L},
{3.9584962e+00L,-5.7533848094674e+02L},
{1.6338070e+00L,-1.1506769618935e+03L},
{2.5487111e+00L,-3.9302097727326e+02L},
{4.9255514e+00L,-5.8849265665348e+02L},
{1.3363463e+00L,-5.5076098609303e+02L},
{1.6072053e+00L,-5.2237501616674e+02L},
{1.3629480e+00L,-1.1790629318198e+03L},
{5.5657014e+00L,-1.0977134971135e+03L},
{5.0708205e+00L,-1.5774000881978e+02L},
{3.9318944e+00L,5.2963464780000e+01L},
{4.8989497e+00L,3.9809289073258e+01L},
{1.3097446e+00L,7.7540959633708e+01L},
{3.5147141e+00L,7.9618578146517e+01L},
{3.5413158e+00L,-5.4868336758022e+02L},
};
static const L CCAMPS[15][5] = {
{-2.279594e-5L,1.407414e-5L,8.273188e-6L,1.340565e-5L,-2.490817e-7L},
{-3.494537e-5L,2.860401e-7L,1.289448e-7L,1.627237e-5L,-1.823138e-7L},
{6.593466e-7L,1.322572e-5L,9.258695e-6L,-4.674248e-7L,-3.646275e-7L},
{1.140767e-5L,-2.049792e-5L,-4.747930e-6L,-2.638763e-6L,-1.245408e-7L},
{9.516893e-6L,-2.748894e-6L,-1.319381e-6L,-4.549908e-6L,-1.864821e-7L},
{7.310990e-6L,-1.924710e-6L,-8.772849e-7L,-3.334143e-6L,-1.745256e-7L},
{-2.603449e-6L,7.359472e-6L,3.168357e-6L,1.119056e-6L,-1.655307e-7L},
{-3.228859e-6L,1.308997e-7L,1.013137e-7L,2.403899e-6L,-3.736225e-7L},
{3.442177e-7L,2.671323e-6L,1.832858e-6L,-2.394688e-7L,-3.478444e-7L},
{8.702406e-6L,-8.421214e-6L,-1.372341e-6L,-1.455234e-6L,-4.998479e-8L},
{-1.488378e-6L,-1.251789e-5L,5.226868e-7L,-2.049301e-7L,0.0L},
{-8.043059e-6L,-2.991300e-6L,1.473654e-7L,-3.154542e-7L,0.0L},
{3.699128e-6L,-3.316126e-6L,2.901257e-7L,3.407826e-7L,0.0L},
{2.550120e-6L,-1.241123e-6L,9.901116e-8L,2.210482e-7L,0.0L},
{-6.351059e-7L,2.341650e-6L,1.061492e-6L,2.878231e-7L,0.0L},
};
static const L CCSEC[4][3] = {
{1.289600e-06L,5.550147e-01L,2.076942e+00L},
{3.102810e-05L,4.035027e+00L,3.525565e-01L},
{9.124190e-06L,9.990265e-01L,2.622706e+00L},
{9.793240e-07L,5.508259e+00L,1.559103e+01L},
};
static const L DCARGM[3][2] = {
{5.1679830e+00L,8.3286911095275e+03L},
{5.4913150e+00L,-7.2140632838100e+03L},
{5.9598530e+00L,1.5542754389685e+04L},
};
static const L CCAMPM[3][4] = {
{1.097594e-01L,2.896773e-07L,5.450474e-02L,1.438491e-07L},
{-2.223581e-02L,5.083103e-08L,1.002548e-02L,-2.291823e-08L},
{1.148966e-02L,5.658888e-08L,8.249439e-03L,4.063015e-08L},
};
static const L CCPAMV[4][1] = {
{
8.326827e-11L},
{1.843484e-11L},
{1.988712e-12L},
{1.881276e-12L},
};
static const L CCPAM[4][1] = {
{
4.960906e-3L},
{2.727436e-3L},
{8.392311e-4L},
{1.556861e-3L},
};
