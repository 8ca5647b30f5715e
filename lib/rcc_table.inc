{1656.674564e-6L,6283.075849991L,6.240054195L},
{22.417471e-6L,5753.384884897L,4.296977442L},
{13.839792e-6L,12566.151699983L,6.196904410L},
{4.770086e-6L,529.690965095L,0.444401603L},
{4.676740e-6L,6069.776754553L,4.021195093L},
{2.256707e-6L,213.299095438L,5.543113262L},
{1.694205e-6L,-3.523118349L,5.025132748L},
{1.554905e-6L,77713.771467920L,5.198467090L},
{1.276839e-6L,7860.419392439L,5.988822341L},
{1.193379e-6L,5223.693919802L,3.649823730L},
{1.115322e-6L,3930.209696220L,1.422745069L},
{0.794185e-6L,11506.769769794L,2.322313077L},
{0.447061e-6L,26.298319800L,3.615796498L},
{0.435206e-6L,-398.149003408L,4.349338347L},
{0.600309e-6L,1577.343542448L,2.678271909L},
{0.496817e-6L,6208.294251424L,5.696701824L},
{0.486306e-6L,5884.926846583L,0.520007179L},
{0.432392e-6L,74.781598567L,2.435898309L},
{0.468597e-6L,6244.942814354L,5.866398759L},
{0.375510e-6L,5507.553238667L,4.103476804L},
{0.243085e-6L,-775.522611324L,3.651837925L},
{0.173435e-6L,18849.227549974L,6.153743485L},
{0.230685e-6L,5856.477659115L,4.773852582L},
{0.203747e-6L,12036.460734888L,4.333987818L},
{0.143935e-6L,-796.298006816L,5.957517795L},
{0.159080e-6L,10977.078804699L,1.890075226L},
{0.119979e-6L,38.133035638L,4.551585768L},
{0.118971e-6L,5486.777843175L,1.914547226L},
{0.116120e-6L,1059.381930189L,0.873504123L},
{0.137927e-6L,11790.629088659L,1.135934669L},
{0.098358e-6L,2544.314419883L,0.092793886L},
{0.101868e-6L,-5573.142801634L,5.984503847L},
{0.080164e-6L,206.185548437L,2.095377709L},
{0.079645e-6L,4694.002954708L,2.949233637L},
{0.062617e-6L,20.775395492L,2.654394814L},
{0.075019e-6L,2942.463423292L,4.980931759L},
{0.064397e-6L,5746.271337896L,1.280308748L},
{0.063814e-6L,5760.498431898L,4.167901731L},
{0.048042e-6L,2146.165416475L,1.495846011L},
{0.048373e-6L,155.420399434L,2.251573730L},
{0.058844e-6L,426.598190876L,4.839650148L},
{0.046551e-6L,-0.980321068L,0.921573539L},
{0.054139e-6L,17260.154654690L,3.411091093L},
{0.042411e-6L,6275.962302991L,2.869567043L},
{0.040184e-6L,-7.113547001L,3.565975565L},
{0.036564e-6L,5088.628839767L,3.324679049L},
{0.040759e-6L,12352.852604545L,3.981496998L},
{0.036507e-6L,801.820931124L,6.248866009L},
{0.036955e-6L,3154.687084896L,5.071801441L},
{0.042732e-6L,632.783739313L,5.720622217L},
{0.042560e-6L,161000.685737473L,1.270837679L},
{0.040480e-6L,15720.838784878L,2.546610123L},
{0.028244e-6L,-6286.598968340L,5.069663519L},
{0.033477e-6L,6062.663207553L,4.144987272L},
{0.034867e-6L,522.577418094L,5.210064075L},
{0.032438e-6L,6076.890301554L,0.749317412L},
{0.030215e-6L,7084.896781115L,3.389610345L},
{0.029247e-6L,-71430.695617928L,4.183178762L},
{0.033529e-6L,9437.762934887L,2.404714239L},
{0.032423e-6L,8827.390269875L,5.541473556L},
{0.027567e-6L,6279.552731642L,5.040846034L},
{0.029862e-6L,12139.553509107L,1.770181024L},
{0.022509e-6L,10447.387839604L,1.460726241L},
{0.020937e-6L,8429.241266467L,0.652303414L},
{0.020322e-6L,419.484643875L,3.735430632L},
{0.024816e-6L,-1194.447010225L,1.087136918L},
{0.025196e-6L,1748.016413067L,2.901883301L},
{0.021691e-6L,14143.495242431L,5.952658009L},
{0.017673e-6L,6812.766815086L,3.186129845L},
{0.022567e-6L,6133.512652857L,3.307984806L},
{0.016155e-6L,10213.285546211L,1.331103168L},
{0.014751e-6L,1349.867409659L,4.308933301L},
{0.015949e-6L,-220.412642439L,4.005298270L},
{0.015974e-6L,-2352.866153772L,6.145309371L},
{0.014223e-6L,17789.845619785L,2.104551349L},
{0.017806e-6L,73.297125859L,3.475975097L},
{0.013671e-6L,-536.804512095L,5.971672571L},
{0.011942e-6L,8031.092263058L,2.053414715L},
{0.014318e-6L,16730.463689596L,3.016058075L},
{0.012462e-6L,103.092774219L,1.737438797L},
{0.010962e-6L,3.590428652L,2.196567739L},
{0.015078e-6L,19651.048481098L,3.969480770L},
{0.010396e-6L,951.718406251L,5.717799605L},
{0.011707e-6L,-4705.732307544L,2.654125618L},
{0.010453e-6L,5863.591206116L,1.913704550L},
{0.012420e-6L,4690.479836359L,4.734090399L},
{0.011847e-6L,5643.178563677L,5.489005403L},
{0.008610e-6L,3340.612426700L,3.661698944L},
{0.011622e-6L,5120.601145584L,4.863931876L},
{0.010825e-6L,553.569402842L,0.842715011L},
{0.008666e-6L,-135.065080035L,3.293406547L},
{0.009963e-6L,149.563197135L,4.870690598L},
{0.009858e-6L,6309.374169791L,1.061816410L},
{0.007959e-6L,316.391869657L,2.465042647L},
{0.010099e-6L,283.859318865L,1.942176992L},
{0.007147e-6L,-242.728603974L,3.661486981L},
{0.007505e-6L,5230.807466803L,4.920937029L},
{0.008323e-6L,11769.853693166L,1.229392026L},
{0.007490e-6L,-6256.777530192L,3.658444681L},
{0.009370e-6L,149854.400134205L,0.673880395L},
{0.007117e-6L,38.027672636L,5.294249518L},
{0.007857e-6L,12168.002696575L,0.525733528L},
{0.007019e-6L,6206.809778716L,0.837688810L},
{0.006056e-6L,955.599741609L,4.194535082L},
{0.008107e-6L,13367.972631107L,3.793235253L},
{0.006731e-6L,5650.292110678L,5.639906583L},
{0.007332e-6L,36.648562930L,0.114858677L},
{0.006366e-6L,4164.311989613L,2.262081818L},
{0.006858e-6L,5216.580372801L,0.642063318L},
{0.006919e-6L,6681.224853400L,6.018501522L},
{0.006826e-6L,7632.943259650L,3.458654112L},
{0.005308e-6L,-1592.596013633L,2.500382359L},
{0.005096e-6L,11371.704689758L,2.547107806L},
{0.004841e-6L,5333.900241022L,0.437078094L},
{0.005582e-6L,5966.683980335L,2.246174308L},
{0.006304e-6L,11926.254413669L,2.512929171L},
{0.006603e-6L,23581.258177318L,5.393136889L},
{0.005123e-6L,-1.484472708L,2.999641028L},
{0.004648e-6L,1589.072895284L,1.275847090L},
{0.005119e-6L,6438.496249426L,1.486539246L},
{0.004521e-6L,4292.330832950L,6.140635794L},
{0.005680e-6L,23013.539539587L,4.557814849L},
{0.005488e-6L,-3.455808046L,0.090675389L},
{0.004193e-6L,7234.794256242L,4.869091389L},
{0.003742e-6L,7238.675591600L,4.691976180L},
{0.004148e-6L,-110.206321219L,3.016173439L},
{0.004553e-6L,11499.656222793L,5.554998314L},
{0.004892e-6L,5436.993015240L,1.475415597L},
{0.004044e-6L,4732.030627343L,1.398784824L},
{0.004164e-6L,12491.370101415L,5.650931916L},
{0.004349e-6L,11513.883316794L,2.181745369L},
{0.003919e-6L,12528.018664345L,5.823319737L},
{0.003129e-6L,6836.645252834L,0.003844094L},
{0.004080e-6L,-7058.598461315L,3.690360123L},
{0.003270e-6L,76.266071276L,1.517189902L},
{0.002954e-6L,6283.143160294L,4.447203799L},
{0.002872e-6L,28.449187468L,1.158692983L},
{0.002881e-6L,735.876513532L,0.349250250L},
{0.003279e-6L,5849.364112115L,4.893384368L},
{0.003625e-6L,6209.778724132L,1.473760578L},
{0.003074e-6L,949.175608970L,5.185878737L},
{0.002775e-6L,9917.696874510L,1.030026325L},
{0.002646e-6L,10973.555686350L,3.918259169L},
{0.002575e-6L,25132.303399966L,6.109659023L},
{0.003500e-6L,263.083923373L,1.892100742L},
{0.002740e-6L,18319.536584880L,4.320519510L},
{0.002464e-6L,202.253395174L,4.698203059L},
{0.002409e-6L,2.542797281L,5.325009315L},
{0.003354e-6L,-90955.551694697L,1.942656623L},
{0.002296e-6L,6496.374945429L,5.061810696L},
{0.003002e-6L,6172.869528772L,2.797822767L},
{0.003202e-6L,27511.467873537L,0.531673101L},
{0.002954e-6L,-6283.008539689L,4.533471191L},
{0.002353e-6L,639.897286314L,3.734548088L},
{0.002401e-6L,16200.772724501L,2.605547070L},
{0.003053e-6L,233141.314403759L,3.029030662L},
{0.003024e-6L,83286.914269554L,2.355556099L},
{0.002863e-6L,17298.182327326L,5.240963796L},
{0.002103e-6L,-7079.373856808L,5.756641637L},
{0.002303e-6L,83996.847317911L,2.013686814L},
{0.002303e-6L,18073.704938650L,1.089100410L},
{0.002381e-6L,63.735898303L,0.759188178L},
{0.002493e-6L,6386.168624210L,0.645026535L},
{0.002366e-6L,3.932153263L,6.215885448L},
{0.002169e-6L,11015.106477335L,4.845297676L},
{0.002397e-6L,6243.458341645L,3.809290043L},
{0.002183e-6L,1162.474704408L,6.179611691L},
{0.002353e-6L,6246.427287062L,4.781719760L},
{0.002199e-6L,-245.831646229L,5.956152284L},
{0.001729e-6L,3894.181829542L,1.264976635L},
{0.001896e-6L,-3128.388765096L,4.914231596L},
{0.002085e-6L,35.164090221L,1.405158503L},
{0.002024e-6L,14712.317116458L,2.752035928L},
{0.001737e-6L,6290.189396992L,5.280820144L},
{0.002229e-6L,491.557929457L,1.571007057L},
{0.001602e-6L,14314.168113050L,4.203664806L},
{0.002186e-6L,454.909366527L,1.402101526L},
{0.001897e-6L,22483.848574493L,4.167932508L},
{0.001825e-6L,-3738.761430108L,0.545828785L},
{0.001894e-6L,1052.268383188L,5.817167450L},
{0.001421e-6L,20.355319399L,2.419886601L},
{0.001408e-6L,10984.192351700L,2.732084787L},
{0.001847e-6L,10873.986030480L,2.903477885L},
{0.001391e-6L,-8635.942003763L,0.593891500L},
{0.001388e-6L,-7.046236698L,1.166145902L},
{0.001810e-6L,-88860.057071188L,0.487355242L},
{0.001288e-6L,-1990.745017041L,3.913022880L},
{0.001297e-6L,23543.230504682L,3.063805171L},
{0.001335e-6L,-266.607041722L,3.995764039L},
{0.001376e-6L,10969.965257698L,5.152914309L},
{0.001745e-6L,244287.600007027L,3.626395673L},
{0.001649e-6L,31441.677569757L,1.952049260L},
{0.001416e-6L,9225.539273283L,4.996408389L},
{0.001238e-6L,4804.209275927L,5.503379738L},
{0.001472e-6L,4590.910180489L,4.164913291L},
{0.001169e-6L,6040.347246017L,5.841719038L},
{0.001039e-6L,5540.085789459L,2.769753519L},
{0.001004e-6L,-170.672870619L,0.755008103L},
{0.001284e-6L,10575.406682942L,5.306538209L},
{0.001278e-6L,71.812653151L,4.713486491L},
{0.001321e-6L,18209.330263660L,2.624866359L},
{0.001297e-6L,21228.392023546L,0.382603541L},
{0.000954e-6L,6282.095528923L,0.882213514L},
{0.001145e-6L,6058.731054289L,1.169483931L},
{0.000979e-6L,5547.199336460L,5.448375984L},
{0.000987e-6L,-6262.300454499L,2.656486959L},
{0.001070e-6L,-154717.609887482L,1.827624012L},
{0.000991e-6L,4701.116501708L,4.387001801L},
{0.001155e-6L,-14.227094002L,3.042700750L},
{0.001176e-6L,277.034993741L,3.335519004L},
{0.000890e-6L,13916.019109642L,5.601498297L},
{0.000884e-6L,-1551.045222648L,1.088831705L},
{0.000876e-6L,5017.508371365L,3.969902609L},
{0.000806e-6L,15110.466119866L,5.142876744L},
{0.000773e-6L,-4136.910433516L,0.022067765L},
{0.001077e-6L,175.166059800L,1.844913056L},
{0.000954e-6L,-6284.056171060L,0.968480906L},
{0.000737e-6L,5326.786694021L,4.923831588L},
{0.000845e-6L,-433.711737877L,4.749245231L},
{0.000819e-6L,8662.240323563L,5.991247817L},
{0.000852e-6L,199.072001436L,2.189604979L},
{0.000723e-6L,17256.631536341L,6.068719637L},
{0.000940e-6L,6037.244203762L,6.197428148L},
{0.000885e-6L,11712.955318231L,3.280414875L},
{0.000706e-6L,12559.038152982L,2.824848947L},
{0.000732e-6L,2379.164473572L,2.501813417L},
{0.000764e-6L,-6127.655450557L,2.236346329L},
{0.000908e-6L,131.541961686L,2.521257490L},
{0.000907e-6L,35371.887265976L,3.370195967L},
{0.000673e-6L,1066.495477190L,3.876512374L},
{0.000814e-6L,17654.780539750L,4.627122566L},
{0.000630e-6L,36.027866677L,0.156368499L},
{0.000798e-6L,515.463871093L,5.151962502L},
{0.000798e-6L,148.078724426L,5.909225055L},
{0.000806e-6L,309.278322656L,6.054064447L},
{0.000607e-6L,-39.617508346L,2.839021623L},
{0.000601e-6L,412.371096874L,3.984225404L},
{0.000646e-6L,11403.676995575L,3.852959484L},
{0.000704e-6L,13521.751441591L,2.300991267L},
{0.000603e-6L,-65147.619767937L,4.140083146L},
{0.000609e-6L,10177.257679534L,0.437122327L},
{0.000631e-6L,5767.611978898L,4.026532329L},
{0.000576e-6L,11087.285125918L,4.760293101L},
{0.000674e-6L,14945.316173554L,6.270510511L},
{0.000726e-6L,5429.879468239L,6.039606892L},
{0.000710e-6L,28766.924424484L,5.672617711L},
{0.000647e-6L,11856.218651625L,3.397132627L},
{0.000678e-6L,-5481.254918868L,6.249666675L},
{0.000618e-6L,22003.914634870L,2.466427018L},
{0.000738e-6L,6134.997125565L,2.242668890L},
{0.000660e-6L,625.670192312L,5.864091907L},
{0.000694e-6L,3496.032826134L,2.668309141L},
{0.000531e-6L,6489.261398429L,1.681888780L},
{0.000611e-6L,-143571.324284214L,2.424978312L},
{0.000575e-6L,12043.574281889L,4.216492400L},
{0.000553e-6L,12416.588502848L,4.772158039L},
{0.000689e-6L,4686.889407707L,6.224271088L},
{0.000495e-6L,7342.457780181L,3.817285811L},
{0.000567e-6L,3634.621024518L,1.649264690L},
{0.000515e-6L,18635.928454536L,3.945345892L},
{0.000486e-6L,-323.505416657L,4.061673868L},
{0.000662e-6L,25158.601719765L,1.794058369L},
{0.000509e-6L,846.082834751L,3.053874588L},
{0.000472e-6L,-12569.674818332L,5.112133338L},
{0.000461e-6L,6179.983075773L,0.513669325L},
{0.000641e-6L,83467.156352816L,3.210727723L},
{0.000520e-6L,10344.295065386L,2.445597761L},
{0.000493e-6L,18422.629359098L,1.676939306L},
{0.000478e-6L,1265.567478626L,5.487314569L},
{0.000472e-6L,-18.159247265L,1.999707589L},
{0.000559e-6L,11190.377900137L,5.783236356L},
{0.000494e-6L,9623.688276691L,3.022645053L},
{0.000463e-6L,5739.157790895L,1.411223013L},
{0.000432e-6L,16858.482532933L,1.179256434L},
{0.000574e-6L,72140.628666286L,1.758191830L},
{0.000484e-6L,17267.268201691L,3.290589143L},
{0.000550e-6L,4907.302050146L,0.864024298L},
{0.000399e-6L,14.977853527L,2.094441910L},
{0.000491e-6L,224.344795702L,0.878372791L},
{0.000432e-6L,20426.571092422L,6.003829241L},
{0.000481e-6L,5749.452731634L,4.309591964L},
{0.000480e-6L,5757.317038160L,1.142348571L},
{0.000485e-6L,6702.560493867L,0.210580917L},
{0.000426e-6L,6055.549660552L,4.274476529L},
{0.000480e-6L,5959.570433334L,5.031351030L},
{0.000466e-6L,12562.628581634L,4.959581597L},
{0.000520e-6L,39302.096962196L,4.788002889L},
{0.000458e-6L,12132.439962106L,1.880103788L},
{0.000470e-6L,12029.347187887L,1.405611197L},
{0.000416e-6L,-7477.522860216L,1.082356330L},
{0.000449e-6L,11609.862544012L,4.179989585L},
{0.000465e-6L,17253.041107690L,0.353496295L},
{0.000362e-6L,-4535.059436924L,1.583849576L},
{0.000383e-6L,21954.157609398L,3.747376371L},
{0.000389e-6L,17.252277143L,1.395753179L},
{0.000331e-6L,18052.929543158L,0.566790582L},
{0.000430e-6L,13517.870106233L,0.685827538L},
{0.000368e-6L,-5756.908003246L,0.731374317L},
{0.000330e-6L,10557.594160824L,3.710043680L},
{0.000332e-6L,20199.094959633L,1.652901407L},
{0.000384e-6L,11933.367960670L,5.827781531L},
{0.000387e-6L,10454.501386605L,2.541182564L},
{0.000325e-6L,15671.081759407L,2.178850542L},
{0.000318e-6L,138.517496871L,2.253253037L},
{0.000305e-6L,9388.005909415L,0.578340206L},
{0.000352e-6L,5749.861766548L,3.000297967L},
{0.000311e-6L,6915.859589305L,1.693574249L},
{0.000297e-6L,24072.921469776L,1.997249392L},
{0.000363e-6L,-640.877607382L,5.071820966L},
{0.000323e-6L,12592.450019783L,1.072262823L},
{0.000341e-6L,12146.667056108L,4.700657997L},
{0.000290e-6L,9779.108676125L,1.812320441L},
{0.000342e-6L,6132.028180148L,4.322238614L},
{0.000329e-6L,6268.848755990L,3.033827743L},
{0.000374e-6L,17996.031168222L,3.388716544L},
{0.000285e-6L,-533.214083444L,4.687313233L},
{0.000338e-6L,6065.844601290L,0.877776108L},
{0.000276e-6L,24.298513841L,0.770299429L},
{0.000336e-6L,-2388.894020449L,5.353796034L},
{0.000290e-6L,3097.883822726L,4.075291557L},
{0.000318e-6L,709.933048357L,5.941207518L},
{0.000271e-6L,13095.842665077L,3.208912203L},
{0.000331e-6L,6073.708907816L,4.007881169L},
{0.000292e-6L,742.990060533L,2.714333592L},
{0.000362e-6L,29088.811415985L,3.215977013L},
{0.000280e-6L,12359.966151546L,0.710872502L},
{0.000267e-6L,10440.274292604L,4.730108488L},
{0.000262e-6L,838.969287750L,1.327720272L},
{0.000250e-6L,16496.361396202L,0.898769761L},
{0.000325e-6L,20597.243963041L,0.180044365L},
{0.000268e-6L,6148.010769956L,5.152666276L},
{0.000284e-6L,5636.065016677L,5.655385808L},
{0.000301e-6L,6080.822454817L,2.135396205L},
{0.000294e-6L,-377.373607916L,3.708784168L},
{0.000236e-6L,2118.763860378L,1.733578756L},
{0.000234e-6L,5867.523359379L,5.575209112L},
{0.000268e-6L,-226858.238553767L,0.069432392L},
{0.000265e-6L,167283.761587465L,4.369302826L},
{0.000280e-6L,28237.233459389L,5.304829118L},
{0.000292e-6L,12345.739057544L,4.096094132L},
{0.000223e-6L,19800.945956225L,3.069327406L},
{0.000301e-6L,43232.306658416L,6.205311188L},
{0.000264e-6L,18875.525869774L,1.417263408L},
{0.000304e-6L,-1823.175188677L,3.409035232L},
{0.000301e-6L,109.945688789L,0.510922054L},
{0.000260e-6L,813.550283960L,2.389438934L},
{0.000299e-6L,316428.228673312L,5.384595078L},
{0.000211e-6L,5756.566278634L,3.789392838L},
{0.000209e-6L,5750.203491159L,1.661943545L},
{0.000240e-6L,12489.885628707L,5.684549045L},
{0.000216e-6L,6303.851245484L,3.862942261L},
{0.000203e-6L,1581.959348283L,5.549853589L},
{0.000200e-6L,5642.198242609L,1.016115785L},
{0.000197e-6L,-70.849445304L,4.690702525L},
{0.000227e-6L,6287.008003254L,2.911891613L},
{0.000197e-6L,533.623118358L,1.048982898L},
{0.000205e-6L,-6279.485421340L,1.829362730L},
{0.000209e-6L,-10988.808157535L,2.636140084L},
{0.000208e-6L,-227.526189440L,4.127883842L},
{0.000191e-6L,415.552490612L,4.401165650L},
{0.000190e-6L,29296.615389579L,4.175658539L},
{0.000264e-6L,66567.485864652L,4.601102551L},
{0.000256e-6L,-3646.350377354L,0.506364778L},
{0.000188e-6L,13119.721102825L,2.032195842L},
{0.000185e-6L,-209.366942175L,4.694756586L},
{0.000198e-6L,25934.124331089L,3.832703118L},
{0.000195e-6L,4061.219215394L,3.308463427L},
{0.000234e-6L,5113.487598583L,1.716090661L},
{0.000188e-6L,1478.866574064L,5.686865780L},
{0.000222e-6L,11823.161639450L,1.942386641L},
{0.000181e-6L,10770.893256262L,1.999482059L},
{0.000171e-6L,6546.159773364L,1.182807992L},
{0.000206e-6L,70.328180442L,5.934076062L},
{0.000169e-6L,20995.392966449L,2.169080622L},
{0.000191e-6L,10660.686935042L,5.405515999L},
{0.000228e-6L,33019.021112205L,4.656985514L},
{0.000184e-6L,-4933.208440333L,3.327476868L},
{0.000220e-6L,-135.625325010L,1.765430262L},
{0.000166e-6L,23141.558382925L,3.454132746L},
{0.000191e-6L,6144.558353121L,5.020393445L},
{0.000180e-6L,6084.003848555L,0.602182191L},
{0.000163e-6L,17782.732072784L,4.960593133L},
{0.000225e-6L,16460.333529525L,2.596451817L},
{0.000222e-6L,5905.702242076L,3.731990323L},
{0.000204e-6L,227.476132789L,5.636192701L},
{0.000159e-6L,16737.577236597L,3.600691544L},
{0.000200e-6L,6805.653268085L,0.868220961L},
{0.000187e-6L,11919.140866668L,2.629456641L},
{0.000161e-6L,127.471796607L,2.862574720L},
{0.000205e-6L,6286.666278643L,1.742882331L},
{0.000189e-6L,153.778810485L,4.812372643L},
{0.000168e-6L,16723.350142595L,0.027860588L},
{0.000149e-6L,11720.068865232L,0.659721876L},
{0.000189e-6L,5237.921013804L,5.245313000L},
{0.000143e-6L,6709.674040867L,4.317625647L},
{0.000146e-6L,4487.817406270L,4.815297007L},
{0.000144e-6L,-664.756045130L,5.381366880L},
{0.000175e-6L,5127.714692584L,4.728443327L},
{0.000162e-6L,6254.626662524L,1.435132069L},
{0.000187e-6L,47162.516354635L,1.354371923L},
{0.000146e-6L,11080.171578918L,3.369695406L},
{0.000180e-6L,-348.924420448L,2.490902145L},
{0.000148e-6L,151.047669843L,3.799109588L},
{0.000157e-6L,6197.248551160L,1.284375887L},
{0.000167e-6L,146.594251718L,0.759969109L},
{0.000133e-6L,-5331.357443741L,5.409701889L},
{0.000154e-6L,95.979227218L,3.366890614L},
{0.000148e-6L,-6418.140930027L,3.384104996L},
{0.000128e-6L,-6525.804453965L,3.803419985L},
{0.000130e-6L,11293.470674356L,0.939039445L},
{0.000152e-6L,-5729.506447149L,0.734117523L},
{0.000138e-6L,210.117701700L,2.564216078L},
{0.000123e-6L,6066.595360816L,4.517099537L},
{0.000140e-6L,18451.078546566L,0.642049130L},
{0.000126e-6L,11300.584221356L,3.485280663L},
{0.000119e-6L,10027.903195729L,3.217431161L},
{0.000151e-6L,4274.518310832L,4.404359108L},
{0.000117e-6L,6072.958148291L,0.366324650L},
{0.000165e-6L,-7668.637425143L,4.298212528L},
{0.000117e-6L,-6245.048177356L,5.379518958L},
{0.000130e-6L,-5888.449964932L,4.527681115L},
{0.000121e-6L,-543.918059096L,6.109429504L},
{0.000162e-6L,9683.594581116L,5.720092446L},
{0.000141e-6L,6219.339951688L,0.679068671L},
{0.000118e-6L,22743.409379516L,4.881123092L},
{0.000129e-6L,1692.165669502L,0.351407289L},
{0.000126e-6L,5657.405657679L,5.146592349L},
{0.000114e-6L,728.762966531L,0.520791814L},
{0.000120e-6L,52.596639600L,0.948516300L},
{0.000115e-6L,65.220371012L,3.504914846L},
{0.000126e-6L,5881.403728234L,5.577502482L},
{0.000158e-6L,163096.180360983L,2.957128968L},
{0.000134e-6L,12341.806904281L,2.598576764L},
{0.000151e-6L,16627.370915377L,3.985702050L},
{0.000109e-6L,1368.660252845L,0.014730471L},
{0.000131e-6L,6211.263196841L,0.085077024L},
{0.000146e-6L,5792.741760812L,0.708426604L},
{0.000146e-6L,-77.750543984L,3.121576600L},
{0.000107e-6L,5341.013788022L,0.288231904L},
{0.000138e-6L,6281.591377283L,2.797450317L},
{0.000113e-6L,-6277.552925684L,2.788904128L},
{0.000115e-6L,-525.758811831L,5.895222200L},
{0.000138e-6L,6016.468808270L,6.096188999L},
{0.000139e-6L,23539.707386333L,2.028195445L},
{0.000146e-6L,-4176.041342449L,4.660008502L},
{0.000107e-6L,16062.184526117L,4.066520001L},
{0.000142e-6L,83783.548222473L,2.936315115L},
{0.000128e-6L,9380.959672717L,3.223844306L},
{0.000135e-6L,6205.325306007L,1.638054048L},
{0.000101e-6L,2699.734819318L,5.481603249L},
{0.000104e-6L,-568.821874027L,2.205734493L},
{0.000103e-6L,6321.103522627L,2.440421099L},
{0.000119e-6L,6321.208885629L,2.547496264L},
{0.000138e-6L,1975.492545856L,2.314608466L},
{0.000121e-6L,137.033024162L,4.539108237L},
{0.000123e-6L,19402.796952817L,4.538074405L},
{0.000119e-6L,22805.735565994L,2.869040566L},
{0.000133e-6L,64471.991241142L,6.056405489L},
{0.000129e-6L,-85.827298831L,2.540635083L},
{0.000131e-6L,13613.804277336L,4.005732868L},
{0.000104e-6L,9814.604100291L,1.959967212L},
{0.000112e-6L,16097.679950283L,3.589026260L},
{0.000123e-6L,2107.034507542L,1.728627253L},
{0.000121e-6L,36949.230808424L,6.072332087L},
{0.000108e-6L,-12539.853380183L,3.716133846L},
{0.000113e-6L,-7875.671863624L,2.725771122L},
{0.000109e-6L,4171.425536614L,4.033338079L},
{0.000101e-6L,6247.911759770L,3.441347021L},
{0.000113e-6L,7330.728427345L,0.656372122L},
{0.000113e-6L,51092.726050855L,2.791483066L},
{0.000106e-6L,5621.842923210L,1.815323326L},
{0.000101e-6L,111.430161497L,5.711033677L},
{0.000103e-6L,909.818733055L,2.812745443L},
{0.000101e-6L,1790.642637886L,1.965746028L},
{102.156724e-6L,6283.075849991L,4.249032005L},
{1.706807e-6L,12566.151699983L,4.205904248L},
{0.269668e-6L,213.299095438L,3.400290479L},
{0.265919e-6L,529.690965095L,5.836047367L},
{0.210568e-6L,-3.523118349L,6.262738348L},
{0.077996e-6L,5223.693919802L,4.670344204L},
{0.054764e-6L,1577.343542448L,4.534800170L},
{0.059146e-6L,26.298319800L,1.083044735L},
{0.034420e-6L,-398.149003408L,5.980077351L},
{0.032088e-6L,18849.227549974L,4.162913471L},
{0.033595e-6L,5507.553238667L,5.980162321L},
{0.029198e-6L,5856.477659115L,0.623811863L},
{0.027764e-6L,155.420399434L,3.745318113L},
{0.025190e-6L,5746.271337896L,2.980330535L},
{0.022997e-6L,-796.298006816L,1.174411803L},
{0.024976e-6L,5760.498431898L,2.467913690L},
{0.021774e-6L,206.185548437L,3.854787540L},
{0.017925e-6L,-775.522611324L,1.092065955L},
{0.013794e-6L,426.598190876L,2.699831988L},
{0.013276e-6L,6062.663207553L,5.845801920L},
{0.011774e-6L,12036.460734888L,2.292832062L},
{0.012869e-6L,6076.890301554L,5.333425680L},
{0.012152e-6L,1059.381930189L,6.222874454L},
{0.011081e-6L,-7.113547001L,5.154724984L},
{0.010143e-6L,4694.002954708L,4.044013795L},
{0.009357e-6L,5486.777843175L,3.416081409L},
{0.010084e-6L,522.577418094L,0.749320262L},
{0.008587e-6L,10977.078804699L,2.777152598L},
{0.008628e-6L,6275.962302991L,4.562060226L},
{0.008158e-6L,-220.412642439L,5.806891533L},
{0.007746e-6L,2544.314419883L,1.603197066L},
{0.007670e-6L,2146.165416475L,3.000200440L},
{0.007098e-6L,74.781598567L,0.443725817L},
{0.006180e-6L,-536.804512095L,1.302642751L},
{0.005818e-6L,5088.628839767L,4.827723531L},
{0.004945e-6L,-6286.598968340L,0.268305170L},
{0.004774e-6L,1349.867409659L,5.808636673L},
{0.004687e-6L,-242.728603974L,5.154890570L},
{0.006089e-6L,1748.016413067L,4.403765209L},
{0.005975e-6L,-1194.447010225L,2.583472591L},
{0.004229e-6L,951.718406251L,0.931172179L},
{0.005264e-6L,553.569402842L,2.336107252L},
{0.003049e-6L,5643.178563677L,1.362634430L},
{0.002974e-6L,6812.766815086L,1.583012668L},
{0.003403e-6L,-2352.866153772L,2.552189886L},
{0.003030e-6L,419.484643875L,5.286473844L},
{0.003210e-6L,-7.046236698L,1.863796539L},
{0.003058e-6L,9437.762934887L,4.226420633L},
{0.002589e-6L,12352.852604545L,1.991935820L},
{0.002927e-6L,5216.580372801L,2.319951253L},
{0.002425e-6L,5230.807466803L,3.084752833L},
{0.002656e-6L,3154.687084896L,2.487447866L},
{0.002445e-6L,10447.387839604L,2.347139160L},
{0.002990e-6L,4690.479836359L,6.235872050L},
{0.002890e-6L,5863.591206116L,0.095197563L},
{0.002498e-6L,6438.496249426L,2.994779800L},
{0.001889e-6L,8031.092263058L,3.569003717L},
{0.002567e-6L,801.820931124L,3.425611498L},
{0.001803e-6L,-71430.695617928L,2.192295512L},
{0.001782e-6L,3.932153263L,5.180433689L},
{0.001694e-6L,-4705.732307544L,4.641779174L},
{0.001704e-6L,-1592.596013633L,3.997097652L},
{0.001735e-6L,5849.364112115L,0.417558428L},
{0.001643e-6L,8429.241266467L,2.180619584L},
{0.001680e-6L,38.133035638L,4.164529426L},
{0.002045e-6L,7084.896781115L,0.526323854L},
{0.001458e-6L,4292.330832950L,1.356098141L},
{0.001437e-6L,20.355319399L,3.895439360L},
{0.001738e-6L,6279.552731642L,0.087484036L},
{0.001367e-6L,14143.495242431L,3.987576591L},
{0.001344e-6L,7234.794256242L,0.090454338L},
{0.001438e-6L,11499.656222793L,0.974387904L},
{0.001257e-6L,6836.645252834L,1.509069366L},
{0.001358e-6L,11513.883316794L,0.495572260L},
{0.001628e-6L,7632.943259650L,4.968445721L},
{0.001169e-6L,103.092774219L,2.838496795L},
{0.001162e-6L,4164.311989613L,3.408387778L},
{0.001092e-6L,6069.776754553L,3.617942651L},
{0.001008e-6L,17789.845619785L,0.286350174L},
{0.001008e-6L,639.897286314L,1.610762073L},
{0.000918e-6L,10213.285546211L,5.532798067L},
{0.001011e-6L,-6256.777530192L,0.661826484L},
{0.000753e-6L,16730.463689596L,3.905030235L},
{0.000737e-6L,11926.254413669L,4.641956361L},
{0.000694e-6L,3340.612426700L,2.111120332L},
{0.000701e-6L,3894.181829542L,2.760823491L},
{0.000689e-6L,-135.065080035L,4.768800780L},
{0.000700e-6L,13367.972631107L,5.760439898L},
{0.000664e-6L,6040.347246017L,1.051215840L},
{0.000654e-6L,5650.292110678L,4.911332503L},
{0.000788e-6L,6681.224853400L,4.699648011L},
{0.000628e-6L,5333.900241022L,5.024608847L},
{0.000755e-6L,-110.206321219L,4.370971253L},
{0.000628e-6L,6290.189396992L,3.660478857L},
{0.000635e-6L,25132.303399966L,4.121051532L},
{0.000534e-6L,5966.683980335L,1.173284524L},
{0.000543e-6L,-433.711737877L,0.345585464L},
{0.000517e-6L,-1990.745017041L,5.414571768L},
{0.000504e-6L,5767.611978898L,2.328281115L},
{0.000485e-6L,5753.384884897L,1.685874771L},
{0.000463e-6L,7860.419392439L,5.297703006L},
{0.000604e-6L,515.463871093L,0.591998446L},
{0.000443e-6L,12168.002696575L,4.830881244L},
{0.000570e-6L,199.072001436L,3.899190272L},
{0.000465e-6L,10969.965257698L,0.476681802L},
{0.000424e-6L,-7079.373856808L,1.112242763L},
{0.000427e-6L,735.876513532L,1.994214480L},
{0.000478e-6L,-6127.655450557L,3.778025483L},
{0.000414e-6L,10973.555686350L,5.441088327L},
{0.000512e-6L,1589.072895284L,0.107123853L},
{0.000378e-6L,10984.192351700L,0.915087231L},
{0.000402e-6L,11371.704689758L,4.107281715L},
{0.000453e-6L,9917.696874510L,1.917490952L},
{0.000395e-6L,149.563197135L,2.763124165L},
{0.000371e-6L,5739.157790895L,3.112111866L},
{0.000350e-6L,11790.629088659L,0.440639857L},
{0.000356e-6L,6133.512652857L,5.444568842L},
{0.000344e-6L,412.371096874L,5.676832684L},
{0.000383e-6L,955.599741609L,5.559734846L},
{0.000333e-6L,6496.374945429L,0.261537984L},
{0.000340e-6L,6055.549660552L,5.975534987L},
{0.000334e-6L,1066.495477190L,2.335063907L},
{0.000399e-6L,11506.769769794L,5.321230910L},
{0.000314e-6L,18319.536584880L,2.313312404L},
{0.000424e-6L,1052.268383188L,1.211961766L},
{0.000307e-6L,63.735898303L,3.169551388L},
{0.000329e-6L,29.821438149L,6.106912080L},
{0.000357e-6L,6309.374169791L,4.223760346L},
{0.000312e-6L,-3738.761430108L,2.180556645L},
{0.000301e-6L,309.278322656L,1.499984572L},
{0.000268e-6L,12043.574281889L,2.447520648L},
{0.000257e-6L,12491.370101415L,3.662331761L},
{0.000290e-6L,625.670192312L,1.272834584L},
{0.000256e-6L,5429.879468239L,1.913426912L},
{0.000339e-6L,3496.032826134L,4.165930011L},
{0.000283e-6L,3930.209696220L,4.325565754L},
{0.000241e-6L,12528.018664345L,3.832324536L},
{0.000304e-6L,4686.889407707L,1.612348468L},
{0.000259e-6L,16200.772724501L,3.470173146L},
{0.000238e-6L,12139.553509107L,1.147977842L},
{0.000236e-6L,6172.869528772L,3.776271728L},
{0.000296e-6L,-7058.598461315L,0.460368852L},
{0.000306e-6L,10575.406682942L,0.554749016L},
{0.000251e-6L,17298.182327326L,0.834332510L},
{0.000290e-6L,4732.030627343L,4.759564091L},
{0.000261e-6L,5884.926846583L,0.298259862L},
{0.000249e-6L,5547.199336460L,3.749366406L},
{0.000213e-6L,11712.955318231L,5.415666119L},
{0.000223e-6L,4701.116501708L,2.703203558L},
{0.000268e-6L,-640.877607382L,0.283670793L},
{0.000209e-6L,5636.065016677L,1.238477199L},
{0.000193e-6L,10177.257679534L,1.943251340L},
{0.000182e-6L,6283.143160294L,2.456157599L},
{0.000184e-6L,-227.526189440L,5.888038582L},
{0.000182e-6L,-6283.008539689L,0.241332086L},
{0.000228e-6L,-6284.056171060L,2.657323816L},
{0.000166e-6L,7238.675591600L,5.930629110L},
{0.000167e-6L,3097.883822726L,5.570955333L},
{0.000159e-6L,-323.505416657L,5.786670700L},
{0.000154e-6L,-4136.910433516L,1.517805532L},
{0.000176e-6L,12029.347187887L,3.139266834L},
{0.000167e-6L,12132.439962106L,3.556352289L},
{0.000153e-6L,202.253395174L,1.463313961L},
{0.000157e-6L,17267.268201691L,1.586837396L},
{0.000142e-6L,83996.847317911L,0.022670115L},
{0.000152e-6L,17260.154654690L,0.708528947L},
{0.000144e-6L,6084.003848555L,5.187075177L},
{0.000135e-6L,5756.566278634L,1.993229262L},
{0.000134e-6L,5750.203491159L,3.457197134L},
{0.000144e-6L,5326.786694021L,6.066193291L},
{0.000160e-6L,11015.106477335L,1.710431974L},
{0.000133e-6L,3634.621024518L,2.836451652L},
{0.000134e-6L,18073.704938650L,5.453106665L},
{0.000134e-6L,1162.474704408L,5.326898811L},
{0.000128e-6L,5642.198242609L,2.511652591L},
{0.000160e-6L,632.783739313L,5.628785365L},
{0.000132e-6L,13916.019109642L,0.819294053L},
{0.000122e-6L,14314.168113050L,5.677408071L},
{0.000125e-6L,12359.966151546L,5.251984735L},
{0.000121e-6L,5749.452731634L,2.210924603L},
{0.000136e-6L,-245.831646229L,1.646502367L},
{0.000120e-6L,5757.317038160L,3.240883049L},
{0.000134e-6L,12146.667056108L,3.059480037L},
{0.000137e-6L,6206.809778716L,1.867105418L},
{0.000141e-6L,17253.041107690L,2.069217456L},
{0.000129e-6L,-7477.522860216L,2.781469314L},
{0.000116e-6L,5540.085789459L,4.281176991L},
{0.000116e-6L,9779.108676125L,3.320925381L},
{0.000129e-6L,5237.921013804L,3.497704076L},
{0.000113e-6L,5959.570433334L,0.983210840L},
{0.000122e-6L,6282.095528923L,2.674938860L},
{0.000140e-6L,-11.045700264L,4.957936982L},
{0.000108e-6L,23543.230504682L,1.390113589L},
{0.000106e-6L,-12569.674818332L,0.429631317L},
{0.000110e-6L,-266.607041722L,5.501340197L},
{0.000115e-6L,12559.038152982L,4.691456618L},
{0.000134e-6L,-2388.894020449L,0.577313584L},
{0.000109e-6L,10440.274292604L,6.218148717L},
{0.000102e-6L,-543.918059096L,1.477842615L},
{0.000108e-6L,21228.392023546L,2.237753948L},
{0.000101e-6L,-4535.059436924L,3.100492232L},
{0.000103e-6L,76.266071276L,5.594294322L},
{0.000104e-6L,949.175608970L,5.674287810L},
{0.000101e-6L,13517.870106233L,2.196632348L},
{0.000100e-6L,11933.367960670L,4.056084160L},
{4.322990e-6L,6283.075849991L,2.642893748L},
{0.406495e-6L,0.000000000L,4.712388980L},
{0.122605e-6L,12566.151699983L,2.438140634L},
{0.019476e-6L,213.299095438L,1.642186981L},
{0.016916e-6L,529.690965095L,4.510959344L},
{0.013374e-6L,-3.523118349L,1.502210314L},
{0.008042e-6L,26.298319800L,0.478549024L},
{0.007824e-6L,155.420399434L,5.254710405L},
{0.004894e-6L,5746.271337896L,4.683210850L},
{0.004875e-6L,5760.498431898L,0.759507698L},
{0.004416e-6L,5223.693919802L,6.028853166L},
{0.004088e-6L,-7.113547001L,0.060926389L},
{0.004433e-6L,77713.771467920L,3.627734103L},
{0.003277e-6L,18849.227549974L,2.327912542L},
{0.002703e-6L,6062.663207553L,1.271941729L},
{0.003435e-6L,-775.522611324L,0.747446224L},
{0.002618e-6L,6076.890301554L,3.633715689L},
{0.003146e-6L,206.185548437L,5.647874613L},
{0.002544e-6L,1577.343542448L,6.232904270L},
{0.002218e-6L,-220.412642439L,1.309509946L},
{0.002197e-6L,5856.477659115L,2.407212349L},
{0.002897e-6L,5753.384884897L,5.863842246L},
{0.001766e-6L,426.598190876L,0.754113147L},
{0.001738e-6L,-796.298006816L,2.714942671L},
{0.001695e-6L,522.577418094L,2.629369842L},
{0.001584e-6L,5507.553238667L,1.341138229L},
{0.001503e-6L,-242.728603974L,0.377699736L},
{0.001552e-6L,-536.804512095L,2.904684667L},
{0.001370e-6L,-398.149003408L,1.265599125L},
{0.001889e-6L,-5573.142801634L,4.413514859L},
{0.001722e-6L,6069.776754553L,2.445966339L},
{0.001124e-6L,1059.381930189L,5.041799657L},
{0.001258e-6L,553.569402842L,3.849557278L},
{0.000831e-6L,951.718406251L,2.471094709L},
{0.000767e-6L,4694.002954708L,5.363125422L},
{0.000756e-6L,1349.867409659L,1.046195744L},
{0.000775e-6L,-11.045700264L,0.245548001L},
{0.000597e-6L,2146.165416475L,4.543268798L},
{0.000568e-6L,5216.580372801L,4.178853144L},
{0.000711e-6L,1748.016413067L,5.934271972L},
{0.000499e-6L,12036.460734888L,0.624434410L},
{0.000671e-6L,-1194.447010225L,4.136047594L},
{0.000488e-6L,5849.364112115L,2.209679987L},
{0.000621e-6L,6438.496249426L,4.518860804L},
{0.000495e-6L,-6286.598968340L,1.868201275L},
{0.000456e-6L,5230.807466803L,1.271231591L},
{0.000451e-6L,5088.628839767L,0.084060889L},
{0.000435e-6L,5643.178563677L,3.324456609L},
{0.000387e-6L,10977.078804699L,4.052488477L},
{0.000547e-6L,161000.685737473L,2.841633844L},
{0.000522e-6L,3154.687084896L,2.171979966L},
{0.000375e-6L,5486.777843175L,4.983027306L},
{0.000421e-6L,5863.591206116L,4.546432249L},
{0.000439e-6L,7084.896781115L,0.522967921L},
{0.000309e-6L,2544.314419883L,3.172606705L},
{0.000347e-6L,4690.479836359L,1.479586566L},
{0.000317e-6L,801.820931124L,3.553088096L},
{0.000262e-6L,419.484643875L,0.606635550L},
{0.000248e-6L,6836.645252834L,3.014082064L},
{0.000245e-6L,-1592.596013633L,5.519526220L},
{0.000225e-6L,4292.330832950L,2.877956536L},
{0.000214e-6L,7234.794256242L,1.605227587L},
{0.000205e-6L,5767.611978898L,0.625804796L},
{0.000180e-6L,10447.387839604L,3.499954526L},
{0.000229e-6L,199.072001436L,5.632304604L},
{0.000214e-6L,639.897286314L,5.960227667L},
{0.000175e-6L,-433.711737877L,2.162417992L},
{0.000209e-6L,515.463871093L,2.322150893L},
{0.000173e-6L,6040.347246017L,2.556183691L},
{0.000184e-6L,6309.374169791L,4.732296790L},
{0.000227e-6L,149854.400134205L,5.385812217L},
{0.000154e-6L,8031.092263058L,5.120720920L},
{0.000151e-6L,5739.157790895L,4.815000443L},
{0.000197e-6L,7632.943259650L,0.222827271L},
{0.000197e-6L,74.781598567L,3.910456770L},
{0.000138e-6L,6055.549660552L,1.397484253L},
{0.000149e-6L,-6127.655450557L,5.333727496L},
{0.000137e-6L,3894.181829542L,4.281749907L},
{0.000135e-6L,9437.762934887L,5.979971885L},
{0.000139e-6L,-2352.866153772L,4.715630782L},
{0.000142e-6L,6812.766815086L,0.513330157L},
{0.000120e-6L,-4705.732307544L,0.194160689L},
{0.000131e-6L,-71430.695617928L,0.000379226L},
{0.000124e-6L,6279.552731642L,2.122264908L},
{0.000108e-6L,-6256.777530192L,0.883445696L},
{0.143388e-6L,6283.075849991L,1.131453581L},
{0.006671e-6L,12566.151699983L,0.775148887L},
{0.001480e-6L,155.420399434L,0.480016880L},
{0.000934e-6L,213.299095438L,6.144453084L},
{0.000795e-6L,529.690965095L,2.941595619L},
{0.000673e-6L,5746.271337896L,0.120415406L},
{0.000672e-6L,5760.498431898L,5.317009738L},
{0.000389e-6L,-220.412642439L,3.090323467L},
{0.000373e-6L,6062.663207553L,3.003551964L},
{0.000360e-6L,6076.890301554L,1.918913041L},
{0.000316e-6L,-21.340641002L,5.545798121L},
{0.000315e-6L,-242.728603974L,1.884932563L},
{0.000278e-6L,206.185548437L,1.266254859L},
{0.000238e-6L,-536.804512095L,4.532664830L},
{0.000185e-6L,522.577418094L,4.578313856L},
{0.000245e-6L,18849.227549974L,0.587467082L},
{0.000180e-6L,426.598190876L,5.151178553L},
{0.000200e-6L,553.569402842L,5.355983739L},
{0.000141e-6L,5223.693919802L,1.336556009L},
{0.000104e-6L,5856.477659115L,4.239842759L},
{0.003826e-6L,6283.075849991L,5.705257275L},
{0.000303e-6L,12566.151699983L,5.407132842L},
{0.000209e-6L,155.420399434L,1.989815753L},
