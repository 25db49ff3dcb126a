! Uniform entry points for the Fortran library.  x is passed through by
! reference exactly as a Fortran caller would pass a variable, so the driver
! sees every store the library makes to its caller's argument.

subroutine f_li2_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dli2
  external dli2
  res = dli2(x)
end subroutine f_li2_d

subroutine f_li3_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dli3
  external dli3
  res = dli3(x)
end subroutine f_li3_d

subroutine f_li4_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dli4
  external dli4
  res = dli4(x)
end subroutine f_li4_d

subroutine f_cl2_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dcl2
  external dcl2
  res = dcl2(x)
end subroutine f_cl2_d

subroutine f_cl3_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dcl3
  external dcl3
  res = dcl3(x)
end subroutine f_cl3_d

subroutine f_cl4_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dcl4
  external dcl4
  res = dcl4(x)
end subroutine f_cl4_d

subroutine f_cl5_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dcl5
  external dcl5
  res = dcl5(x)
end subroutine f_cl5_d

subroutine f_cl6_d(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x
  real(c_double), intent(out) :: res
  double precision dcl6
  external dcl6
  res = dcl6(x)
end subroutine f_cl6_d

subroutine f_cli2_d(z, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  double complex :: z
  double complex, intent(out) :: res
  double complex cdli2
  external cdli2
  res = cdli2(z)
end subroutine f_cli2_d

subroutine f_cli3_d(z, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  double complex :: z
  double complex, intent(out) :: res
  double complex cdli3
  external cdli3
  res = cdli3(z)
end subroutine f_cli3_d

subroutine f_cli4_d(z, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  double complex :: z
  double complex, intent(out) :: res
  double complex cdli4
  external cdli4
  res = cdli4(z)
end subroutine f_cli4_d

subroutine f_cli5_d(z, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  double complex :: z
  double complex, intent(out) :: res
  double complex cdli5
  external cdli5
  res = cdli5(z)
end subroutine f_cli5_d

subroutine f_cli6_d(z, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  double complex :: z
  double complex, intent(out) :: res
  double complex cdli6
  external cdli6
  res = cdli6(z)
end subroutine f_cli6_d
