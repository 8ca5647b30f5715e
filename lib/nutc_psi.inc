{3341.5L,17206241.8L,3.1L,17409.5L},
{-1716.8L,-1317185.3L,1.4L,-156.8L},
{285.7L,-227667.0L,0.3L,-23.5L},
{-68.6L,-207448.0L,0.0L,-21.4L},
{950.3L,147607.9L,-2.3L,-355.0L},
{-66.7L,-51689.1L,0.2L,122.6L},
{-108.6L,71117.6L,0.0L,7.0L},
{35.6L,-38740.2L,0.1L,-36.2L},
{85.4L,-30127.6L,0.0L,-3.1L},
{9.0L,21583.0L,0.1L,-50.3L},
{22.1L,12822.8L,0.0L,13.3L},
{3.4L,12350.8L,0.0L,1.3L},
{-21.1L,15699.4L,0.0L,1.6L},
{4.2L,6313.8L,0.0L,6.2L},
{-22.8L,5796.9L,0.0L,6.1L},
{15.7L,-5961.1L,0.0L,-0.6L},
{13.1L,-5159.1L,0.0L,-4.6L},
{1.8L,4592.7L,0.0L,4.5L},
{-17.5L,6336.0L,0.0L,0.7L},
{16.3L,-3851.1L,0.0L,-0.4L},
{-2.8L,4771.7L,0.0L,0.5L},
{13.8L,-3099.3L,0.0L,-0.3L},
{0.2L,2860.3L,0.0L,0.3L},
{1.4L,2045.3L,0.0L,2.0L},
{-8.6L,2922.6L,0.0L,0.3L},
{-7.7L,2587.9L,0.0L,0.2L},
{8.8L,-1408.1L,0.0L,3.7L},
{1.4L,1517.5L,0.0L,1.5L},
{-1.9L,-1579.7L,0.0L,7.7L},
{1.3L,-2178.6L,0.0L,-0.2L},
{-4.8L,1286.8L,0.0L,1.3L},
{6.3L,1267.2L,0.0L,-4.0L},
{-1.0L,1669.3L,0.0L,-8.3L},
{2.4L,-1020.0L,0.0L,-0.9L},
{4.5L,-766.9L,0.0L,0.0L},
{-1.1L,756.5L,0.0L,-1.7L},
{-1.4L,-1097.3L,0.0L,-0.5L},
{2.6L,-663.0L,0.0L,-0.6L},
{0.8L,-714.1L,0.0L,1.6L},
{0.4L,-629.9L,0.0L,-0.6L},
{0.3L,580.4L,0.0L,0.6L},
{-1.6L,577.3L,0.0L,0.5L},
{-0.9L,644.4L,0.0L,0.0L},
{2.2L,-534.0L,0.0L,-0.5L},
{-2.5L,493.3L,0.0L,0.5L},
{-0.1L,-477.3L,0.0L,-2.4L},
{-0.9L,735.0L,0.0L,-1.7L},
{0.7L,406.2L,0.0L,0.4L},
{-2.8L,656.9L,0.0L,0.0L},
{0.6L,358.0L,0.0L,2.0L},
{-0.7L,472.5L,0.0L,-1.1L},
{-0.1L,-300.5L,0.0L,0.0L},
{-1.2L,435.1L,0.0L,-1.0L},
{1.8L,-289.4L,0.0L,0.0L},
{0.6L,-422.6L,0.0L,0.0L},
{0.8L,-287.6L,0.0L,0.6L},
{-38.6L,-392.3L,0.0L,0.0L},
{0.7L,-281.8L,0.0L,0.6L},
{0.6L,-405.7L,0.0L,0.0L},
{-1.2L,229.0L,0.0L,0.2L},
{1.1L,-264.3L,0.0L,0.5L},
{-0.7L,247.9L,0.0L,-0.5L},
{-0.2L,218.0L,0.0L,0.2L},
{0.6L,-339.0L,0.0L,0.8L},
{-0.7L,198.7L,0.0L,0.2L},
{-1.5L,334.0L,0.0L,0.0L},
{0.1L,334.0L,0.0L,0.0L},
{-0.1L,-198.1L,0.0L,0.0L},
{-106.6L,0.0L,0.0L,0.0L},
{-0.5L,165.8L,0.0L,0.0L},
{0.0L,134.8L,0.0L,0.0L},
{0.9L,-151.6L,0.0L,0.0L},
{0.0L,-129.7L,0.0L,0.0L},
{0.8L,-132.8L,0.0L,-0.1L},
{0.5L,-140.7L,0.0L,0.0L},
{-0.1L,138.4L,0.0L,0.0L},
{0.0L,129.0L,0.0L,-0.3L},
{0.5L,-121.2L,0.0L,0.0L},
{-0.3L,114.5L,0.0L,0.0L},
{-0.1L,101.8L,0.0L,0.0L},
{-3.6L,-101.9L,0.0L,0.0L},
{0.8L,-109.4L,0.0L,0.0L},
{0.2L,-97.0L,0.0L,0.0L},
{-0.7L,157.3L,0.0L,0.0L},
{0.2L,-83.3L,0.0L,0.0L},
{-0.3L,93.3L,0.0L,0.0L},
{-0.1L,92.1L,0.0L,0.0L},
{-0.5L,133.6L,0.0L,0.0L},
{-0.1L,81.5L,0.0L,0.0L},
{0.0L,123.9L,0.0L,0.0L},
{-0.3L,128.1L,0.0L,0.0L},
{0.1L,74.1L,0.0L,-0.3L},
{-0.2L,-70.3L,0.0L,0.0L},
{-0.4L,66.6L,0.0L,0.0L},
{0.1L,-66.7L,0.0L,0.0L},
{-0.7L,69.3L,0.0L,-0.3L},
{0.0L,-70.4L,0.0L,0.0L},
{-0.1L,101.5L,0.0L,0.0L},
{0.5L,-69.1L,0.0L,0.0L},
{-0.2L,58.5L,0.0L,0.2L},
{0.1L,-94.9L,0.0L,0.2L},
{0.0L,52.9L,0.0L,-0.2L},
{0.1L,86.7L,0.0L,-0.2L},
{-0.1L,-59.2L,0.0L,0.2L},
{0.3L,-58.8L,0.0L,0.1L},
{-0.3L,49.0L,0.0L,0.0L},
{-0.2L,56.9L,0.0L,-0.1L},
{0.3L,-50.2L,0.0L,0.0L},
{-0.2L,53.4L,0.0L,-0.1L},
{0.1L,-76.5L,0.0L,0.0L},
{-0.2L,45.3L,0.0L,0.0L},
{0.1L,-46.8L,0.0L,0.0L},
{0.2L,-44.6L,0.0L,0.0L},
{0.2L,-48.7L,0.0L,0.0L},
{0.1L,-46.8L,0.0L,0.0L},
{0.1L,-42.0L,0.0L,0.0L},
{0.0L,46.4L,0.0L,-0.1L},
{0.2L,-67.3L,0.0L,0.1L},
{0.0L,-65.8L,0.0L,0.2L},
{-0.1L,-43.9L,0.0L,0.3L},
{0.0L,-38.9L,0.0L,0.0L},
{-0.3L,63.9L,0.0L,0.0L},
{-0.2L,41.2L,0.0L,0.0L},
{0.0L,-36.1L,0.0L,0.2L},
{-0.3L,58.5L,0.0L,0.0L},
{-0.1L,36.1L,0.0L,0.0L},
{0.0L,-39.7L,0.0L,0.0L},
{0.1L,-57.7L,0.0L,0.0L},
{-0.2L,33.4L,0.0L,0.0L},
{36.4L,0.0L,0.0L,0.0L},
{-0.1L,55.7L,0.0L,-0.1L},
{0.1L,-35.4L,0.0L,0.0L},
{0.1L,-31.0L,0.0L,0.0L},
{-0.1L,30.1L,0.0L,0.0L},
{-0.3L,49.2L,0.0L,0.0L},
{-0.2L,49.1L,0.0L,0.0L},
{-0.1L,33.6L,0.0L,0.0L},
{0.1L,-33.5L,0.0L,0.0L},
{0.1L,-31.0L,0.0L,0.0L},
{-0.1L,28.0L,0.0L,0.0L},
{0.1L,-25.2L,0.0L,0.0L},
{0.1L,-26.2L,0.0L,0.0L},
{-0.2L,41.5L,0.0L,0.0L},
{0.0L,24.5L,0.0L,0.1L},
{-16.2L,0.0L,0.0L,0.0L},
{0.0L,-22.3L,0.0L,0.0L},
{0.0L,23.1L,0.0L,0.0L},
{-0.1L,37.5L,0.0L,0.0L},
{0.2L,-25.7L,0.0L,0.0L},
{0.0L,25.2L,0.0L,0.0L},
{0.1L,-24.5L,0.0L,0.0L},
{-0.1L,24.3L,0.0L,0.0L},
{0.1L,-20.7L,0.0L,0.0L},
{0.1L,-20.8L,0.0L,0.0L},
{-0.2L,33.4L,0.0L,0.0L},
{32.9L,0.0L,0.0L,0.0L},
{0.1L,-32.6L,0.0L,0.0L},
{0.0L,19.9L,0.0L,0.0L},
{-0.1L,19.6L,0.0L,0.0L},
{0.0L,-18.7L,0.0L,0.0L},
{0.1L,-19.0L,0.0L,0.0L},
{0.1L,-28.6L,0.0L,0.0L},
{4.0L,178.8L,-11.8L,0.3L},
{39.8L,-107.3L,-5.6L,-1.0L},
{9.9L,164.0L,-4.1L,0.1L},
{-4.8L,-135.3L,-3.4L,-0.1L},
{50.5L,75.0L,1.4L,-1.2L},
{-1.1L,-53.5L,1.3L,0.0L},
{-45.0L,-2.4L,-0.4L,6.6L},
{-11.5L,-61.0L,-0.9L,0.4L},
{4.4L,-68.4L,-3.4L,0.0L},
{7.7L,-47.1L,-4.7L,-1.0L},
{-42.9L,-12.6L,-1.2L,4.2L},
{-42.8L,12.7L,-1.2L,-4.2L},
{-7.6L,-44.1L,2.1L,-0.5L},
{-64.1L,1.7L,0.2L,4.5L},
{36.4L,-10.4L,1.0L,3.5L},
{35.6L,10.2L,1.0L,-3.5L},
{-1.7L,39.5L,2.0L,0.0L},
{50.9L,-8.2L,-0.8L,-5.0L},
{0.0L,52.3L,1.2L,0.0L},
{-42.9L,-17.8L,0.4L,0.0L},
{2.6L,34.3L,0.8L,0.0L},
{-0.8L,-48.6L,2.4L,-0.1L},
{-4.9L,30.5L,3.7L,0.7L},
{0.0L,-43.6L,2.1L,0.0L},
{0.0L,-25.4L,1.2L,0.0L},
{2.0L,40.9L,-2.0L,0.0L},
{-2.1L,26.1L,0.6L,0.0L},
{22.6L,-3.2L,-0.5L,-0.5L},
{-7.6L,24.9L,-0.4L,-0.2L},
{-6.2L,34.9L,1.7L,0.3L},
{2.0L,17.4L,-0.4L,0.1L},
{-3.9L,20.5L,2.4L,0.6L},
