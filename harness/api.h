/* The API catalogue shared by the driver and the specification (spec/api.qnt
   holds the same ids).  X(id, name, kind) with kind
     RD  double -> double            CD  complex double -> complex double
     RF  float                       CF
     RL  long double                 CL
     ND  (int64, double) -> double   NC  (int64, complex double)
     NI  int64 -> double
   name is the symbol called; the prefix gives the binding (x C++, c C, f Fortran). */
#define API(X) \
  X( 1, x_li2_f,  RF) X( 2, x_li2_d,  RD) X( 3, x_li2_l,  RL) \
  X( 4, x_cli2_f, CF) X( 5, x_cli2_d, CD) X( 6, x_cli2_l, CL) \
  X( 7, x_li3_d,  RD) X( 8, x_cli3_d, CD) X( 9, x_cli3_l, CL) \
  X(10, x_li4_d,  RD) X(11, x_cli4_d, CD) X(12, x_cli4_l, CL) \
  X(13, x_cli5_d, CD) X(14, x_cli5_l, CL) \
  X(15, x_cli6_d, CD) X(16, x_cli6_l, CL) \
  X(17, x_cl1_d,  RD) \
  X(18, x_cl2_d,  RD) X(19, x_cl2_l,  RL) \
  X(20, x_cl3_d,  RD) X(21, x_cl3_l,  RL) \
  X(22, x_cl4_d,  RD) X(23, x_cl4_l,  RL) \
  X(24, x_cl5_d,  RD) X(25, x_cl5_l,  RL) \
  X(26, x_cl6_d,  RD) X(27, x_cl6_l,  RL) \
  X(28, x_lin_d,  NC) X(29, x_cln_d,  ND) X(30, x_sln_d,  ND) \
  X(31, x_zeta,   NI) X(32, x_neta,   NI) X(33, x_ifac,   NI) X(34, x_harm,   NI) \
  X(41, c_li2_f,  RF) X(42, c_li2_d,  RD) X(43, c_li2_l,  RL) \
  X(44, c_cli2_f, CF) X(45, c_cli2_d, CD) X(46, c_cli2_l, CL) \
  X(47, c_li3_d,  RD) X(48, c_cli3_d, CD) X(49, c_cli3_l, CL) \
  X(50, c_li4_d,  RD) X(51, c_cli4_d, CD) X(52, c_cli4_l, CL) \
  X(53, c_cli5_d, CD) X(54, c_cli5_l, CL) \
  X(55, c_cli6_d, CD) X(56, c_cli6_l, CL) \
  X(58, c_cl2_d,  RD) X(59, c_cl2_l,  RL) \
  X(60, c_cl3_d,  RD) X(61, c_cl3_l,  RL) \
  X(62, c_cl4_d,  RD) X(63, c_cl4_l,  RL) \
  X(64, c_cl5_d,  RD) X(65, c_cl5_l,  RL) \
  X(66, c_cl6_d,  RD) X(67, c_cl6_l,  RL) \
  X(82, f_li2_d,  RD) X(85, f_cli2_d, CD) \
  X(87, f_li3_d,  RD) X(88, f_cli3_d, CD) \
  X(90, f_li4_d,  RD) X(91, f_cli4_d, CD) \
  X(93, f_cli5_d, CD) X(95, f_cli6_d, CD) \
  X(98, f_cl2_d,  RD) X(100,f_cl3_d,  RD) X(102,f_cl4_d,  RD) \
  X(104,f_cl5_d,  RD) X(106,f_cl6_d,  RD)
