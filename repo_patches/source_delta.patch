From d9bbbcbeffd10796e85abe35fbbcb50de057ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 01/65] fix: identity shortcuts of + - * / must not replace the
 operand's chain

---
 src/add.F90 | 4 ++--
 src/div.F90 | 2 +-
 src/mul.F90 | 4 ++--
 src/sub.F90 | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/add.F90 b/src/add.F90
index 036db38..0bfcc1e 100644
--- a/src/add.F90
+++ b/src/add.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() + v2, [v1])
+       call s%set_chain(chain_add_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_add_vd)
   end function add_vd
 
   impure elemental function add_dv(v1, v2) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(v1 + v2%val(), [v2])
+       call s%set_chain(chain_add_vd)
     else
        s = v2
     end if
-    call s%set_chain(chain_add_vd)
   end function add_dv
 
   impure elemental function pos(v) result(s)
diff --git a/src/div.F90 b/src/div.F90
index 8085ea0..2b2e180 100644
--- a/src/div.F90
+++ b/src/div.F90
@@ -47,10 +47,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() / d, [v], [d])
+       call s%set_chain(chain_div_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_div_vd)
   end function div_vd
 
   subroutine chain_div_dv(this)
diff --git a/src/mul.F90 b/src/mul.F90
index 159f36f..5c38b92 100644
--- a/src/mul.F90
+++ b/src/mul.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_vd
 
   impure elemental function mul_dv(d, v) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_dv
 
 end module fazang_mul_mod
diff --git a/src/sub.F90 b/src/sub.F90
index b7e4add..678f00b 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -45,10 +45,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() - v2, [v1])
+       call s%set_chain(chain_sub_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_sub_vd)
   end function sub_vd
 
   subroutine chain_sub_dv(this)
-- 
2.43.0


From e220b96a25c759e3fbb52437d3cffaf24ac8fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 02/65] fix: hypot with a zero constant is abs of the variable
 and keeps its chain

---
 src/hypot.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypot.F90 b/src/hypot.F90
index 84da526..e543101 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -32,10 +32,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(hypot(v1%val(), v2), [v1])
+       call s%set_chain(chain_hypot)
     else
        s = abs(v1)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_vd
 
   impure elemental function hypot_dv(v1, v2) result(s)
@@ -44,10 +44,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(hypot(v2%val(), v1), [v2])
+       call s%set_chain(chain_hypot)
     else
-       s = v2
+       s = abs(v2)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_dv
 
 end module fazang_hypot_v_mod
-- 
2.43.0


From 29ce2e4b090373fd1ca48b1577938043d604212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 03/65] fix: inv_square value is 1/(v*v)

---
 src/inv_square.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inv_square.F90 b/src/inv_square.F90
index 98bb5c4..268111b 100644
--- a/src/inv_square.F90
+++ b/src/inv_square.F90
@@ -22,7 +22,7 @@ contains
   impure elemental function inv_square(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
-    s = var(1.d0 / v%val() * v%val(), [v])
+    s = var(1.d0 / (v%val() * v%val()), [v])
     call s%set_chain(chain_isq)
   end function inv_square
 
-- 
2.43.0


From 8f7030aa73c8219251420f1c569c0f14f3b04ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 04/65] fix: relational operators with a real on the left keep
 the operand order

---
 src/relational.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relational.F90 b/src/relational.F90
index 4a23c58..5908c06 100644
--- a/src/relational.F90
+++ b/src/relational.F90
@@ -24,7 +24,7 @@ contains
 
 #define FUNC_REL_OP_VV(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a, b; logical :: r; r = a%val() S b%val(); end function F
 #define FUNC_REL_OP_VD(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a; real(rk), intent(in) :: b; logical :: r; r = a%val() S b; end function F
-#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = b%val() S a; end function F
+#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = a S b%val(); end function F
 
   FUNC_REL_OP_VV(==, var_eq)
   FUNC_REL_OP_VD(==, vd_eq)
-- 
2.43.0


From 664d517835e626157db3dfdf78af4f74adec0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 05/65] fix: unary minus is elemental like the other operators

---
 src/sub.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub.F90 b/src/sub.F90
index 678f00b..96b1ff6 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -66,7 +66,7 @@ contains
     call s%set_chain(chain_sub_dv)
   end function sub_dv
 
-  function neg(v) result(s)
+  impure elemental function neg(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
     s = var(-v%val(), [v])
-- 
2.43.0


From e96a3189c38941a933ec8f4f9e4b4ae87c7e9c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 06/65] fix: export the documented abs from module fazang

---
 src/fazang.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fazang.F90 b/src/fazang.F90
index 79b4222..5532fd6 100644
--- a/src/fazang.F90
+++ b/src/fazang.F90
@@ -14,6 +14,7 @@ module fazang
   use fazang_grad_mod
 
   ! op 1
+  use fazang_abs_mod
   use fazang_sin_mod
   use fazang_cos_mod
   use fazang_tan_mod
-- 
2.43.0


From 36ffb57a6b0f8eb7cae53bfe28b0da3404188530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 07/65] fix: end_nested must not write past the top of the tape

---
 src/nested.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 5f50ba8..956ce4f 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -32,7 +32,7 @@ contains
   subroutine end_nested()
     integer :: i
     if ( nest_level > 0 ) then
-       do i = callstack % stack % head, nested_tape_head(nest_level), -1
+       do i = callstack % stack % head - 1, nested_tape_head(nest_level), -1
           callstack % stack % storage(i) = 0
        end do
        callstack % stack % head = nested_tape_head(nest_level)
-- 
2.43.0


From 8d88bfd6a0675a9028732066e3662ad17736c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 08/65] fix: a vari slot reused after end_nested starts without
 the old chain

---
 src/vari.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vari.F90 b/src/vari.F90
index 626f696..8d89a35 100644
--- a/src/vari.F90
+++ b/src/vari.F90
@@ -119,6 +119,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val
@@ -135,6 +136,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, op)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op
@@ -145,6 +147,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_dop
@@ -157,6 +160,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d,&
          & op, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op_dop
-- 
2.43.0


From 50fe6125037f7f1d208e89db883d0f9dc41e77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 09/65] fix: nested sweeps outside a nested scope stay inside
 the tape

---
 src/nested.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 956ce4f..f8da441 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -16,7 +16,7 @@ module fazang_nested_tape_mod
 contains
   subroutine set_zero_nested_adj ()
     integer i
-    do i = callstack % head - 1, nested_vari_head(nest_level), -1
+    do i = callstack % head - 1, curr_nested_vari_head(), -1
        call callstack % stack % set_adj(callstack%varis(i)%i, 0.0d0)
     end do
   end subroutine set_zero_nested_adj
@@ -44,7 +44,7 @@ contains
   end subroutine end_nested
 
   integer(ik) function curr_nested_vari_head()
-    curr_nested_vari_head = 0
+    curr_nested_vari_head = 1
     if (nest_level > 0) then
        curr_nested_vari_head = nested_vari_head(nest_level)
     end if
-- 
2.43.0


From 50eb7f00dad016bcb8cb59f7b6092fed8622a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 10/65] fix: nesting deeper than ten levels must not overflow
 the level table

---
 src/nested.F90 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index f8da441..3fcaf12 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -8,9 +8,9 @@ module fazang_nested_tape_mod
   public :: set_zero_nested_adj, begin_nested, end_nested
   public :: curr_nested_vari_head
   
-  integer, parameter :: max_nested_stack = 10
-  integer :: nested_tape_head(max_nested_stack) = 0
-  integer :: nested_vari_head(max_nested_stack) = 0
+  integer, parameter :: init_nested_stack = 10
+  integer, allocatable :: nested_tape_head(:)
+  integer, allocatable :: nested_vari_head(:)
   integer :: nest_level = 0
 
 contains
@@ -24,6 +24,13 @@ contains
   ! we can't use OOP like FINAL because gfortran has implementation
   ! gap of standard 2018
   subroutine begin_nested()
+    if ( .not. allocated(nested_vari_head) ) then
+       allocate(nested_vari_head(init_nested_stack), source=0)
+       allocate(nested_tape_head(init_nested_stack), source=0)
+    else if ( nest_level == size(nested_vari_head) ) then
+       nested_vari_head = [nested_vari_head, spread(0, 1, nest_level)]
+       nested_tape_head = [nested_tape_head, spread(0, 1, nest_level)]
+    end if
     nest_level = nest_level + 1
     nested_vari_head(nest_level) = callstack % head
     nested_tape_head(nest_level) = callstack % stack % head
-- 
2.43.0


From 788e7aef188e9345ce2a861f99327e4445df2ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 11/65] fix: gradient and jacobian sweep only their own nested
 tape

---
 src/grad.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grad.F90 b/src/grad.F90
index 8a829b2..6df8ad5 100644
--- a/src/grad.F90
+++ b/src/grad.F90
@@ -38,7 +38,7 @@ contains
     x_var = var(x)
     f_var = f(x_var)
     f_df(1) = f_var%val()
-    call f_var%grad()
+    call f_var%grad_nested()
     f_df(2:(1+size(x))) = x_var%adj()
 
     call end_nested()
@@ -59,7 +59,7 @@ contains
 
     do i = 1, n
        call set_zero_nested_adj()
-       call f_var(i)%grad()
+       call f_var(i)%grad_nested()
        f_df(i, 2:(1 + size(x))) = x_var%adj()
     end do
 
-- 
2.43.0


From b9ec62c31fa97151355524503a801f7c84dd53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 12/65] fix: parameter sensitivities work for any number of
 parameters

---
 src/cvodes_model.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 87f1ffe..e0b4aa1 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -175,7 +175,7 @@ contains
     type(N_Vector), pointer :: yiSdot
     real(c_double), pointer :: yiSdotvec(:)
     logical :: par_is_var
-    type(var) :: pvar(3)
+    type(var), allocatable :: pvar(:)
     integer m               ! # of var params
 
     m = merge(ode % ns - n, ode % ns, ode % ys)
-- 
2.43.0


From 8243b93a6cd2fd3c6dede7454450d4374d290e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 13/65] fix: ODE solvers keep a contiguous state of their own
 for any y section

---
 src/cvodes.F90 | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index f645264..3b3f455 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -54,7 +54,7 @@ contains
     integer :: ierr, is
     integer, intent(in) :: cv_method
     real(c_double) :: t0
-    real(c_double), intent(inout) :: y(:)
+    real(c_double), target, intent(inout) :: y(:)
     type(cvs_rhs), target, intent(in) :: ode
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
@@ -135,13 +135,16 @@ contains
     class(cvodes_options), intent(in) :: cvs_options
     real(c_double), intent(inout) :: y(:)
     real(c_double) :: yt(size(y), size(ts))
+    real(c_double), target :: yval(size(y))
     real(c_double) :: tcur(1)
     type(cvs_rhs), target :: ode
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout
 
     ode = cvs_rhs(rhs)
-    serv = new_cvodes_service(t, y, ode, cvs_options % cv_method)
+    ! the solver keeps the address of the state for the whole solution
+    yval = y
+    serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
     call cvs_options % set(serv % mem)
 
     nout = size(ts)
@@ -152,8 +155,9 @@ contains
           print *, 'Error in FCVODE, ierr = ', ierr, '; halting'
           stop 1
        endif
-       yt(:, outstep) = y
+       yt(:, outstep) = yval
     enddo
+    y = yval
   end function cvodes_sol_data
 
   function cvodes_sol_y0_sens(t, y, ts, rhs, rhs_yvar, cvs_options) result(yt)
@@ -172,7 +176,8 @@ contains
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout, is
     integer(c_long) :: i
-    real(rk) :: yval(size(y)), g(size(y))
+    real(rk), target :: yval(size(y))
+    real(rk) :: g(size(y))
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
@@ -226,7 +231,8 @@ contains
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout, is
     integer(c_long) :: i
-    real(rk) :: g(size(param)), pval(size(param))
+    real(rk), target :: pval(size(param)), yval(size(y))
+    real(rk) :: g(size(param))
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
@@ -234,7 +240,8 @@ contains
 
     pval = param % val()
     ode = cvs_rhs(.false., size(param), pval, rhs, rhs_pvar)
-    serv = new_cvodes_service(t, y, ode, cvs_options % cv_method)
+    yval = y
+    serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)
 
@@ -260,6 +267,7 @@ contains
           yt(i, outstep) = var_with_partials(yiSvec(i), param, g)
        enddo
     enddo
+    y = yval
   end function cvodes_sol_par_sens
 
 end module fazang_cvodes_mod
-- 
2.43.0


From b842150c57ca1990000d059f558cc05d985806ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 14/65] fix: build the CVODES service in place so that its
 finalizer runs once

---
 src/cvodes.F90 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index 3b3f455..55a6d46 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -37,10 +37,6 @@ module fazang_cvodes_mod
      final :: free_cvodes_service
   end type cvodes_service
 
-  interface cvodes_service
-     module procedure :: new_cvodes_service
-  end interface cvodes_service
-
   interface cvodes_sol
      module procedure :: cvodes_sol_data
      module procedure :: cvodes_sol_y0_sens
@@ -48,9 +44,11 @@ module fazang_cvodes_mod
   end interface cvodes_sol
 
 contains
-  function new_cvodes_service(t0, y, ode, cv_method) result(serv)
+  ! a subroutine, as the finalizer must not run on a function result
+  ! or on the variable it would be assigned to
+  subroutine init_cvodes_service(serv, t0, y, ode, cv_method)
     implicit none
-    type(cvodes_service) :: serv
+    type(cvodes_service), intent(inout) :: serv
     integer :: ierr, is
     integer, intent(in) :: cv_method
     real(c_double) :: t0
@@ -109,7 +107,7 @@ contains
             c_funloc(ode % cvs_sens), serv % yS)
     end if
 
-  end function new_cvodes_service
+  end subroutine init_cvodes_service
 
   subroutine free_cvodes_service(this)
     implicit none
@@ -144,7 +142,7 @@ contains
     ode = cvs_rhs(rhs)
     ! the solver keeps the address of the state for the whole solution
     yval = y
-    serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
+    call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
     call cvs_options % set(serv % mem)
 
     nout = size(ts)
@@ -185,7 +183,7 @@ contains
 
     ode = cvs_rhs(.true., size(y), rhs, rhs_yvar)
     yval = y%val()
-    serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
+    call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)       
 
@@ -241,7 +239,7 @@ contains
     pval = param % val()
     ode = cvs_rhs(.false., size(param), pval, rhs, rhs_pvar)
     yval = y
-    serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
+    call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)
 
-- 
2.43.0


From 0fe2c8c152f0075a254d940d0589117b1acec322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 15/65] fix: record_len counts the data operands behind the
 operand list

---
 src/tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.F90 b/src/tape.F90
index 5678336..dcd89ef 100644
--- a/src/tape.F90
+++ b/src/tape.F90
@@ -349,7 +349,7 @@ contains
     class(tape), target, intent(in) :: this
     integer(ik), intent(in) :: i
     integer(ik) :: j
-    j = min_rec_size + this%storage(i + 4) + 2 * this%storage(i + 5)
+    j = min_rec_size + this%storage(i + 4) + 2 * this%n_data_operand(i)
   end function record_len
 
   pure function n_data_operand(this, i) result(d)
-- 
2.43.0


From d8754726b11eb4ade143e2f2f65586d0484c8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 16/65] fix: tape adj() without an index reads the adjoint, not
 the value

---
 src/tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.F90 b/src/tape.F90
index dcd89ef..da2a39c 100644
--- a/src/tape.F90
+++ b/src/tape.F90
@@ -190,7 +190,7 @@ contains
   pure function adj_curr (this) result(d)
     real(rk) :: d
     class(tape), target, intent(in) :: this
-    d = this%val_at(this%head)
+    d = this%adj_at(this%head)
   end function adj_curr
 
   ! op: operands index
-- 
2.43.0


From 82dc45ddefc7fff67f542094cb6a1db12252bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 17/65] fix: log_sum_exp of nothing but -inf is -inf, not NaN

---
 src/log_sum_exp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_sum_exp.F90 b/src/log_sum_exp.F90
index 891ffe7..f3ccc9c 100644
--- a/src/log_sum_exp.F90
+++ b/src/log_sum_exp.F90
@@ -30,7 +30,7 @@ contains
     real(rk), intent(in) :: d(:)
     real(rk) :: s, max_d
     max_d = maxval(d)
-    if ( is_inf(max_d) ) then
+    if ( is_inf(max_d) .or. is_neg_inf(max_d) ) then
        s = max_d
     else
        s = max_d + log(sum(exp(d - max_d)))
-- 
2.43.0


From 093e5d7b89452886d264fb07b31464e644db0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 18/65] fix: asinh and acosh derivatives do not overflow for
 huge arguments

---
 src/acosh.F90 | 2 +-
 src/asinh.F90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acosh.F90 b/src/acosh.F90
index 406686d..cf5efae 100644
--- a/src/acosh.F90
+++ b/src/acosh.F90
@@ -19,7 +19,7 @@ contains
     real(rk) :: adj(1)
     real(rk) :: val(1)
     val = this%operand_val()
-    adj = this%adj() / sqrt(val * val - 1.d0)
+    adj = this%adj() / (sqrt(val - 1.d0) * sqrt(val + 1.d0))
     call this%set_operand_adj(adj)
   end subroutine chain_acosh
 
diff --git a/src/asinh.F90 b/src/asinh.F90
index ca507cf..dd854bc 100644
--- a/src/asinh.F90
+++ b/src/asinh.F90
@@ -19,7 +19,7 @@ contains
     real(rk) :: adj(1)
     real(rk) :: val(1)
     val = this%operand_val()
-    adj = this%adj() / sqrt(val * val + 1.d0)
+    adj = this%adj() / hypot(val, 1.d0)
     call this%set_operand_adj(adj)
   end subroutine chain_asinh
 
-- 
2.43.0


From 55d79ab2e68140bd233f4b0fcbdd209274ae8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 19/65] fix: digamma takes its limits from IEEE double, not
 from VAX double

---
 src/digamma.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digamma.F90 b/src/digamma.F90
index 922cab7..ae9890a 100644
--- a/src/digamma.F90
+++ b/src/digamma.F90
@@ -137,7 +137,7 @@ module fazang_digamma_mod
   real(real64), parameter :: X01 =187.0D0, X01D = 128.0D0, X02 = 6.9464496836234126266D-04
 
   !  Machine-dependent constants
-  real(real64), parameter :: XINF=1.70D+38, XMIN1=5.89D-39, XMAX1=3.60D+16
+  real(real64), parameter :: XINF=1.79D+308, XMIN1=2.23D-308, XMAX1=3.60D+16
   real(real64), parameter :: XSMALL=2.05D-09, XLARGE=2.04D+15
 
 contains
-- 
2.43.0


From b43ec47eeba525d18a25eef82582d93be54c87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:07 +0000
Subject: [PATCH 20/65] fix: acosh and atanh of NaN have a NaN derivative, not
 one

---
 src/acosh.F90 | 3 ++-
 src/atanh.F90 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acosh.F90 b/src/acosh.F90
index cf5efae..bb0c2ef 100644
--- a/src/acosh.F90
+++ b/src/acosh.F90
@@ -28,7 +28,8 @@ contains
     type(var), intent(in) :: v
     type(var) :: s
     if ( is_nan(v) ) then
-       s = v
+       s = var(nan64, [v])
+       call s%set_chain(chain_acosh)
     elseif ( v <= 1.d0 ) then
        error stop
     else
diff --git a/src/atanh.F90 b/src/atanh.F90
index 203041f..493311f 100644
--- a/src/atanh.F90
+++ b/src/atanh.F90
@@ -26,7 +26,8 @@ contains
     type(var), intent(in) :: v
     type(var) :: s
     if ( is_nan(v) ) then
-       s = v
+       s = var(nan64, [v])
+       call s%set_chain(chain_atanh)
     elseif ( v <= -1.d0 .or. v >= 1.d0 ) then
        error stop
     else
-- 
2.43.0


From 6d8dc8004aa248331e2065360c0d5d1a11d1855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:57 +0000
Subject: [PATCH 21/65] fix: log_sum_exp of -inf and NaN is NaN

---
 src/log_sum_exp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_sum_exp.F90 b/src/log_sum_exp.F90
index f3ccc9c..20b8512 100644
--- a/src/log_sum_exp.F90
+++ b/src/log_sum_exp.F90
@@ -30,7 +30,7 @@ contains
     real(rk), intent(in) :: d(:)
     real(rk) :: s, max_d
     max_d = maxval(d)
-    if ( is_inf(max_d) .or. is_neg_inf(max_d) ) then
+    if ( is_inf(max_d) .or. (is_neg_inf(max_d) .and. .not. any(is_nan(d))) ) then
        s = max_d
     else
        s = max_d + log(sum(exp(d - max_d)))
-- 
2.43.0


From cb31c543ee6e8694a58665bbfa5784655e75838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 22/65] fix: a data vector in the tape starts with its length,
 not with blank records

---
 src/array_in_tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array_in_tape.F90 b/src/array_in_tape.F90
index 34cd669..8e90f4b 100644
--- a/src/array_in_tape.F90
+++ b/src/array_in_tape.F90
@@ -53,7 +53,7 @@ contains
     integer(ik) :: i
     s%tape_ptr => t
     s%rank = 1
-    s%loc = s%tape_ptr%push(size(a))
+    s%loc = s%tape_ptr%push([size(a)])
     i = s%tape_ptr%push(a)
   end function data_1d_array_in_tape
 
-- 
2.43.0


From d9167590b0208b62726bbb15bd5dc37f68fbc92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:11 +0000
Subject: [PATCH 23/65] fix: ODE right-hand sides receive states with their
 full size, not size one

---
 src/cvodes.F90       | 10 +++++-----
 src/cvodes_model.F90 | 24 +++++++++++++++++-------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index 55a6d46..df71cd5 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -97,7 +97,7 @@ contains
        serv % yS = FN_VCloneVectorArray(ode % ns, serv % sunvec_y) 
        do is = 0, ode % ns - 1
           yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-          yiSvec => FN_VGetArrayPointer(yiS)
+          yiSvec => nvector_values(yiS)
           call FN_VConst(0.d0, yiS)
           if (ode % ys .and. is < serv % neq) then
              yiSvec(is + 1) = 1.0;
@@ -202,10 +202,10 @@ contains
           g = 0.d0
           do is = 0, ode % ns - 1
              yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-             yiSvec => FN_VGetArrayPointer(yiS)
+             yiSvec => nvector_values(yiS)
              g(is + 1) = yiSvec(i)
           end do
-          yiSvec => FN_VGetArrayPointer(serv % sunvec_y)
+          yiSvec => nvector_values(serv % sunvec_y)
           yt(i, outstep) = var_with_partials(yiSvec(i), y, g)
        enddo
     enddo
@@ -258,10 +258,10 @@ contains
           g = 0.d0
           do is = 0, ode % ns - 1
              yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-             yiSvec => FN_VGetArrayPointer(yiS)
+             yiSvec => nvector_values(yiS)
              g(is + 1) = yiSvec(i)
           end do
-          yiSvec => FN_VGetArrayPointer(serv % sunvec_y)          
+          yiSvec => nvector_values(serv % sunvec_y)          
           yt(i, outstep) = var_with_partials(yiSvec(i), param, g)
        enddo
     enddo
diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index e0b4aa1..cff9964 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -49,6 +49,16 @@ module fazang_cvodes_model_mod
   end interface cvs_rhs
 contains
 
+  ! all values of a vector: the SUNDIALS interface hands out
+  ! a pointer to the first one only
+  function nvector_values(v) result(val)
+    type(N_Vector), target, intent(inout) :: v
+    real(c_double), pointer :: val(:)
+    real(c_double), pointer :: first(:)
+    first => FN_VGetArrayPointer(v)
+    call c_f_pointer(c_loc(first(1)), val, [FN_VGetLength(v)])
+  end function nvector_values
+
   function new_cvs_rhs(func) result(rhs)
     procedure(cvs_rhs_func) :: func
     type(cvs_rhs), target :: rhs
@@ -116,8 +126,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(sunvec_y)
-    fvec => FN_VGetArrayPointer(sunvec_f)
+    yvec => nvector_values(sunvec_y)
+    fvec => nvector_values(sunvec_f)
 
     ! fill RHS vector
     call ode % f(tn, yvec, fvec)
@@ -197,15 +207,15 @@ contains
        do j = 1, ode % ns
           yiS => FN_VGetVecAtIndexVectorArray(yS, j - 1)
           yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, j - 1)
-          yiSvec => FN_VGetArrayPointer(yiS)
-          yiSdotvec => FN_VGetArrayPointer(yiSdot)
+          yiSvec => nvector_values(yiS)
+          yiSdotvec => nvector_values(yiSdot)
           yiSdotvec(i) = dot_product(yvar%adj(), yiSvec)
        end do
        
        if ( par_is_var ) then
           do j = 1, m
              yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, ode % ns - m + j - 1)
-             yiSdotvec => FN_VGetArrayPointer(yiSdot)
+             yiSdotvec => nvector_values(yiSdot)
              yiSdotvec(i) = yiSdotvec(i) + pvar(j) % adj();
           enddo
        end if
@@ -243,8 +253,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(y)
-    fvec => FN_VGetArrayPointer(f)
+    yvec => nvector_values(y)
+    fvec => nvector_values(f)
     n = int(FN_VGetLength(y), kind=int32)
     call set_sens_rhs(n, t, yvec, fvec, yS, ySdot, ode)
     ierr = 0
-- 
2.43.0


From a7405b25212940d13accad11793e992fb6522430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 24/65] fix: sensitivities of ODE solutions take part in the
 error control

---
 src/cvodes.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index df71cd5..7491414 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -185,7 +185,8 @@ contains
     yval = y%val()
     call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
 
-    ierr = FCVodeSensEEtolerances(serv % mem)       
+    ierr = FCVodeSensEEtolerances(serv % mem)
+    ierr = FCVodeSetSensErrCon(serv % mem, err_con)
 
     call cvs_options % set(serv % mem)
 
@@ -242,6 +243,7 @@ contains
     call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)
+    ierr = FCVodeSetSensErrCon(serv % mem, err_con)
 
     call cvs_options % set(serv % mem)
 
-- 
2.43.0


From 9f02a837f16a7e92c23e37a6d99e0db8f73c522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 25/65] fix: solver contexts made from Fortran no longer leak a
 profiler

---
 .../src/sundials/fmod/fsundials_context_mod.f90        | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90 b/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90
index b329e61..32f92b9 100644
--- a/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90
+++ b/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90
@@ -127,26 +127,16 @@ end function
 function FSUNContext_Create(comm, ctx) &
 result(swig_result)
 use, intrinsic :: ISO_C_BINDING
-#ifdef SUNDIALS_BUILD_WITH_PROFILING
-use fsundials_profiler_mod, only : FSUNProfiler_Create
-#endif
 integer(C_INT) :: swig_result
 type(C_PTR) :: comm
 type(C_PTR), target, intent(inout) :: ctx
 integer(C_INT) :: fresult
 type(C_PTR) :: farg1
 type(C_PTR) :: farg2
-#ifdef SUNDIALS_BUILD_WITH_PROFILING
-type(C_PTR) :: profiler
-#endif
 
 farg1 = comm
 farg2 = c_loc(ctx)
 fresult = swigc_FSUNContext_Create(c_null_ptr, farg2)
-#ifdef SUNDIALS_BUILD_WITH_PROFILING
-fresult = FSUNProfiler_Create(farg1, "FSUNContext Default", profiler)
-fresult = swigc_FSUNContext_SetProfiler(ctx, profiler)
-#endif
 swig_result = fresult
 end function
 
-- 
2.43.0


From 15aecbd26d9add83e0918ad0aadda31c911ed343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:36 +0000
Subject: [PATCH 26/65] fix: installation works without SUNDIALS and includes
 its modules with it

---
 src/install-mod.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/install-mod.py b/src/install-mod.py
index 78183c0..1ac20ae 100644
--- a/src/install-mod.py
+++ b/src/install-mod.py
@@ -1,6 +1,6 @@
 #!/usr/bin/env python3
 
-from os import environ, listdir, makedirs
+from os import environ, listdir, makedirs, walk
 from os.path import join, isdir, exists
 from sys import argv
 from shutil import copy
@@ -22,13 +22,12 @@ for d in listdir(build_dir):
             if f.endswith(".mod"):
                 modules.append(join(bd, f))
 
-lib_build_dir = build_dir = join(environ["MESON_BUILD_ROOT"], "lib")
-for d in listdir(lib_build_dir):
-    bd = join(lib_build_dir, d)
-    if isdir(bd):
-        for f in listdir(bd):
-            if f.endswith(".mod"):
-                modules.append(join(bd, f))
+# there is no such directory when SUNDIALS is not built
+lib_build_dir = join(environ["MESON_BUILD_ROOT"], "lib")
+for bd, _, files in walk(lib_build_dir):
+    for f in files:
+        if f.endswith(".mod"):
+            modules.append(join(bd, f))
 
 if not exists(module_dir):
     makedirs(module_dir)
-- 
2.43.0


From d361ca588f0aa43d16d41eaa9fa0da2d01dee053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:11 +0000
Subject: [PATCH 27/65] fix: buffers of vectors of vectors hold every part, not
 the first and the last two

---
 .../src/nvector/manyvector/nvector_manyvector.c               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/nvector/manyvector/nvector_manyvector.c b/lib/sundials-6.1.1/src/nvector/manyvector/nvector_manyvector.c
index 1d102e4..9b005bd 100644
--- a/lib/sundials-6.1.1/src/nvector/manyvector/nvector_manyvector.c
+++ b/lib/sundials-6.1.1/src/nvector/manyvector/nvector_manyvector.c
@@ -1717,7 +1717,7 @@ int MVAPPEND(N_VBufPack)(N_Vector x, void *buf)
     if (flag != 0) return(-1);
 
     /* update the buffer location for the next vector */
-    loc = (char*) buf + offset;
+    loc = (char*) loc + offset;
   }
 
   return(0);
@@ -1749,7 +1749,7 @@ int MVAPPEND(N_VBufUnpack)(N_Vector x, void *buf)
     if (flag != 0) return(-1);
 
     /* update the buffer location for the next vector */
-    loc = (char*) buf + offset;
+    loc = (char*) loc + offset;
   }
 
   return(0);
-- 
2.43.0


From d53af42ca945e779d57177153e25fbb8cfc099b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 28/65] fix: reductions of threaded vectors no longer race

---
 .../src/nvector/pthreads/nvector_pthreads.c   | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c b/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c
index 7a3d8d5..6a5c9e5 100644
--- a/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c
+++ b/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c
@@ -1720,7 +1720,9 @@ static void *N_VMin_PT(void *thread_data)
   end   = my_data->end;
 
   /* find local min */
+  pthread_mutex_lock(global_mutex);
   local_min = *global_min;
+  pthread_mutex_unlock(global_mutex);
   for (i = start; i < end; i++) {
     if (xd[i] < local_min)
       local_min = xd[i];
@@ -2023,6 +2025,7 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
   pthread_t      *threads;
   Pthreads_Data  *thread_data;
   pthread_attr_t attr;
+  pthread_mutex_t global_mutex;
 
   realtype val = ZERO;
 
@@ -2036,6 +2039,9 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
   pthread_attr_init(&attr);
   pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
 
+  /* lock for reduction */
+  pthread_mutex_init(&global_mutex, NULL);
+
   for (i=0; i<nthreads; i++) {
     /* initialize thread data */
     N_VInitThreadData(&thread_data[i]);
@@ -2046,7 +2052,8 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
     /* pack thread data */
     thread_data[i].v1 = NV_DATA_PT(x);
     thread_data[i].v2 = NV_DATA_PT(z);
-    thread_data[i].global_val = &val;
+    thread_data[i].global_val   = &val;
+    thread_data[i].global_mutex = &global_mutex;
 
     /* create threads and call pthread companion function */
     pthread_create(&threads[i], &attr, N_VInvTest_PT, (void *) &thread_data[i]);
@@ -2059,6 +2066,7 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
 
   /* clean up and return */
   pthread_attr_destroy(&attr);
+  pthread_mutex_destroy(&global_mutex);
   free(threads);
   free(thread_data);
 
@@ -2079,6 +2087,7 @@ static void *N_VInvTest_PT(void *thread_data)
   realtype *xd, *zd;
   realtype local_val, *global_val;
   Pthreads_Data *my_data;
+  pthread_mutex_t *global_mutex;
 
   /* extract thread data */
   my_data = (Pthreads_Data *) thread_data;
@@ -2086,7 +2095,8 @@ static void *N_VInvTest_PT(void *thread_data)
   xd = my_data->v1;
   zd = my_data->v2;
 
-  global_val = my_data->global_val;
+  global_val   = my_data->global_val;
+  global_mutex = my_data->global_mutex;
 
   start = my_data->start;
   end   = my_data->end;
@@ -2102,7 +2112,9 @@ static void *N_VInvTest_PT(void *thread_data)
 
   /* update global val */
   if (local_val > ZERO) {
+    pthread_mutex_lock(global_mutex);
     *global_val = local_val;
+    pthread_mutex_unlock(global_mutex);
   }
 
   /* exit */
@@ -2121,6 +2133,7 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
   pthread_t      *threads;
   Pthreads_Data  *thread_data;
   pthread_attr_t attr;
+  pthread_mutex_t global_mutex;
 
   realtype val = ZERO;
 
@@ -2134,6 +2147,9 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
   pthread_attr_init(&attr);
   pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
 
+  /* lock for reduction */
+  pthread_mutex_init(&global_mutex, NULL);
+
   for (i=0; i<nthreads; i++) {
     /* initialize thread data */
     N_VInitThreadData(&thread_data[i]);
@@ -2145,7 +2161,8 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
     thread_data[i].v1 = NV_DATA_PT(c);
     thread_data[i].v2 = NV_DATA_PT(x);
     thread_data[i].v3 = NV_DATA_PT(m);
-    thread_data[i].global_val = &val;
+    thread_data[i].global_val   = &val;
+    thread_data[i].global_mutex = &global_mutex;
 
     /* create threads and call pthread companion function */
     pthread_create(&threads[i], &attr, N_VConstrMask_PT, (void *) &thread_data[i]);
@@ -2158,6 +2175,7 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
 
   /* clean up and return */
   pthread_attr_destroy(&attr);
+  pthread_mutex_destroy(&global_mutex);
   free(threads);
   free(thread_data);
 
@@ -2178,6 +2196,7 @@ static void *N_VConstrMask_PT(void *thread_data)
   realtype *cd, *xd, *md;
   realtype local_val, *global_val;
   Pthreads_Data *my_data;
+  pthread_mutex_t *global_mutex;
 
   /* extract thread data */
   my_data = (Pthreads_Data *) thread_data;
@@ -2186,7 +2205,8 @@ static void *N_VConstrMask_PT(void *thread_data)
   xd = my_data->v2;
   md = my_data->v3;
 
-  global_val = my_data->global_val;
+  global_val   = my_data->global_val;
+  global_mutex = my_data->global_mutex;
 
   start = my_data->start;
   end   = my_data->end;
@@ -2209,7 +2229,9 @@ static void *N_VConstrMask_PT(void *thread_data)
 
   /* update global val */
   if (local_val > ZERO) {
+    pthread_mutex_lock(global_mutex);
     *global_val = local_val;
+    pthread_mutex_unlock(global_mutex);
   }
 
   /* exit */
-- 
2.43.0


From b7fd18304bc24e8c83fd3737d28080a835ae12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 29/65] fix: scale all of A in SUNMatScaleAdd_Band when B has
 smaller bandwidths

---
 lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c b/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c
index fb68605..a11dbc6 100644
--- a/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c
+++ b/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c
@@ -364,8 +364,12 @@ int SUNMatScaleAdd_Band(realtype c, SUNMatrix A, SUNMatrix B)
   for (j=0; j<SM_COLUMNS_B(A); j++) {
     A_colj = SM_COLUMN_B(A,j);
     B_colj = SM_COLUMN_B(B,j);
+    for (i=-SM_UBAND_B(A); i<-SM_UBAND_B(B); i++)
+      A_colj[i] *= c;
     for (i=-SM_UBAND_B(B); i<=SM_LBAND_B(B); i++)
       A_colj[i] = c*A_colj[i] + B_colj[i];
+    for (i=SM_LBAND_B(B)+1; i<=SM_LBAND_B(A); i++)
+      A_colj[i] *= c;
   }
   return SUNMAT_SUCCESS;
 }
-- 
2.43.0


From 619205605af50bd0f63e9f3aa58239b97d2d38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:59 +0000
Subject: [PATCH 30/65] fix: scale all columns in SUNMatScaleAddI_Sparse when
 the diagonal is present

---
 lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c b/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c
index 1d1a8aa..b78a722 100644
--- a/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c
+++ b/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c
@@ -628,7 +628,7 @@ int SUNMatScaleAddI_Sparse(realtype c, SUNMatrix A)
   if (newvals == 0) {
 
     /* iterate through columns, adding 1.0 to diagonal */
-    for (j=0; j < SUNMIN(M,N); j++)
+    for (j=0; j < N; j++)
       for (i=Ap[j]; i<Ap[j+1]; i++)
         if (Ai[i] == j) {
           Ax[i] = ONE + c*Ax[i];
-- 
2.43.0


From a313ed8b93f4331d753fc79d55fa922ae7530f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:57 +0000
Subject: [PATCH 31/65] fix: apply all previous rotations when QRfact factors a
 Hessenberg matrix at once

---
 lib/sundials-6.1.1/src/sundials/sundials_iterative.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
index 76a0259..d79d198 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
@@ -188,9 +188,9 @@ int SUNQRfact(int n, realtype **h, realtype *q, int job)
     code = 0;
     for (k=0; k < n; k++) {
 
-      /* Multiply column k by the previous k-1 Givens rotations */
+      /* Multiply column k by the previous k Givens rotations */
 
-      for (j=0; j < k-1; j++) {
+      for (j=0; j < k; j++) {
         i = 2*j;
         temp1 = h[j][k];
         temp2 = h[j+1][k];
-- 
2.43.0


From 5bfdbb61e38af6c3b94943a9b73ad86cd3537d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 32/65] fix: classical Gram-Schmidt against the last p of more
 vectors

---
 lib/sundials-6.1.1/src/sundials/sundials_iterative.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
index d79d198..baf84c4 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
@@ -123,9 +123,9 @@ int SUNClassicalGS(N_Vector *v, realtype **h, int k, int p, realtype *new_vk_nor
 
   vk_norm = SUNRsqrt(stemp[k-i0]);
   for (i=k-i0-1; i >= 0; i--) {
-    h[i][k_minus_1] = stemp[i];
+    h[i0+i][k_minus_1] = stemp[i];
     stemp[i+1] = -stemp[i];
-    vtemp[i+1] = v[i];
+    vtemp[i+1] = v[i0+i];
   }
   stemp[0] = ONE;
   vtemp[0] = v[k];
@@ -149,10 +149,10 @@ int SUNClassicalGS(N_Vector *v, realtype **h, int k, int p, realtype *new_vk_nor
     for (i=i0; i < k; i++) {
       h[i][k_minus_1] += stemp[i-i0+1];
       stemp[i-i0+1] = -stemp[i-i0+1];
-      vtemp[i-i0+1] = v[i-i0];
+      vtemp[i-i0+1] = v[i];
     }
 
-    retval = N_VLinearCombination(k+1, stemp, vtemp, v[k]);
+    retval = N_VLinearCombination(k-i0+1, stemp, vtemp, v[k]);
     if (retval != 0) return(-1);
 
     *new_vk_norm = SUNRsqrt(N_VDotProd(v[k],v[k]));
-- 
2.43.0


From 0478b1bcea7f0d047bf771e1c6a02cf30ec48e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:00 +0000
Subject: [PATCH 33/65] fix: recoverable preconditioner failures reported as
 such by TFQMR

---
 lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c b/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c
index a9691e3..c7f9390 100644
--- a/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c
+++ b/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c
@@ -643,7 +643,7 @@ int SUNLinSolSolve_SPTFQMR(SUNLinearSolver S, SUNMatrix A, N_Vector x,
           if (ier != 0) {
             *zeroguess  = SUNFALSE;
             LASTFLAG(S) = (ier < 0) ?
-              SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_UNREC;
+              SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_REC;
             return(LASTFLAG(S));
           }
           N_VScale(ONE, vtemp2, vtemp1);
@@ -774,7 +774,7 @@ int SUNLinSolSolve_SPTFQMR(SUNLinearSolver S, SUNMatrix A, N_Vector x,
       if (ier != 0) {
         *zeroguess  = SUNFALSE;
         LASTFLAG(S) = (ier < 0) ?
-          SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_UNREC;
+          SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_REC;
         return(LASTFLAG(S));
       }
       N_VScale(ONE, vtemp1, x);
-- 
2.43.0


From 1e89b3d3aa32d21cc79392fd896dc160e0ff869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:26 +0000
Subject: [PATCH 34/65] fix: root functions monitored again from the start
 after reinitialization

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 1 +
 lib/sundials-6.1.1/src/idas/idas.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index d4c64e2..b460042 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -7841,6 +7841,7 @@ static int cvRcheck1(CVodeMem cv_mem)
 
   zroot = SUNFALSE;
   for (i = 0; i < cv_mem->cv_nrtfn; i++) {
+    cv_mem->cv_gactive[i] = SUNTRUE;
     if (SUNRabs(cv_mem->cv_glo[i]) == ZERO) {
       zroot = SUNTRUE;
       cv_mem->cv_gactive[i] = SUNFALSE;
diff --git a/lib/sundials-6.1.1/src/idas/idas.c b/lib/sundials-6.1.1/src/idas/idas.c
index 6835767..9f67bb4 100644
--- a/lib/sundials-6.1.1/src/idas/idas.c
+++ b/lib/sundials-6.1.1/src/idas/idas.c
@@ -7098,6 +7098,7 @@ static int IDARcheck1(IDAMem IDA_mem)
 
   zroot = SUNFALSE;
   for (i = 0; i < IDA_mem->ida_nrtfn; i++) {
+    IDA_mem->ida_gactive[i] = SUNTRUE;
     if (SUNRabs(IDA_mem->ida_glo[i]) == ZERO) {
       zroot = SUNTRUE;
       IDA_mem->ida_gactive[i] = SUNFALSE;
-- 
2.43.0


From d30584321c6a9282ad35bc518c3a306703752c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 35/65] fix: sensitivity right-hand side given f(t,y) by the
 simultaneous fixed-point corrector

---
 lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c b/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c
index e570fd4..b7fae20 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c
@@ -530,10 +530,6 @@ static int cvNlsFPFunctionSensSim(N_Vector ycorSim, N_Vector resSim, void* cvode
   if (retval < 0) return(CV_RHSFUNC_FAIL);
   if (retval > 0) return(RHSFUNC_RECVR);
 
-  /* evaluate fixed point function */
-  N_VLinearSum(cv_mem->cv_h, res, -ONE, cv_mem->cv_zn[1], res);
-  N_VScale(cv_mem->cv_rl1, res, res);
-
   /* extract sensitivity and residual vectors from the vector wrapper */
   ycorS = NV_VECS_SW(ycorSim)+1;
   resS  = NV_VECS_SW(resSim)+1;
@@ -552,6 +548,10 @@ static int cvNlsFPFunctionSensSim(N_Vector ycorSim, N_Vector resSim, void* cvode
   if (retval < 0) return(CV_SRHSFUNC_FAIL);
   if (retval > 0) return(SRHSFUNC_RECVR);
 
+  /* evaluate fixed point function (after the sensitivity rhs used f) */
+  N_VLinearSum(cv_mem->cv_h, res, -ONE, cv_mem->cv_zn[1], res);
+  N_VScale(cv_mem->cv_rl1, res, res);
+
   /* evaluate sensitivity fixed point function */
   for (is=0; is<cv_mem->cv_Ns; is++) {
     N_VLinearSum(cv_mem->cv_h, resS[is], -ONE, cv_mem->cv_znS[1][is], resS[is]);
-- 
2.43.0


From 585509fd8c0068360fcc7b32cfc7550269b4ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:00 +0000
Subject: [PATCH 36/65] fix: internal quadrature sensitivity function called
 with its own data in each step

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index b460042..2a220bd 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -6564,7 +6564,7 @@ static int cvQuadSensNls(CVodeMem cv_mem)
   /* Save quadrature correction in acorQ */
   retval = cv_mem->cv_fQS(cv_mem->cv_Ns, cv_mem->cv_tn, cv_mem->cv_y,
                           cv_mem->cv_yS, cv_mem->cv_ftempQ,
-                          cv_mem->cv_acorQS, cv_mem->cv_user_data,
+                          cv_mem->cv_acorQS, cv_mem->cv_fQS_data,
                           cv_mem->cv_tempv, cv_mem->cv_tempvQ);
   cv_mem->cv_nfQSe++;
   if (retval < 0) return(CV_QSRHSFUNC_FAIL);
-- 
2.43.0


From e28e6cc0aae1aa4475195801ee670f9a09262f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:03 +0000
Subject: [PATCH 37/65] fix: yS and fQ evaluated in the initial step size
 estimate when only the quadrature sensitivities are in the error test

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 2a220bd..25ca77c 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5318,7 +5318,8 @@ static int cvYddNorm(CVodeMem cv_mem, realtype hg, realtype *yddnrm)
 
   N_VLinearSum(hg, cv_mem->cv_zn[1], ONE, cv_mem->cv_zn[0], cv_mem->cv_y);
 
-  if (cv_mem->cv_sensi && cv_mem->cv_errconS) {
+  if (cv_mem->cv_sensi &&
+      (cv_mem->cv_errconS || (cv_mem->cv_quadr_sensi && cv_mem->cv_errconQS))) {
     retval = N_VLinearSumVectorArray(cv_mem->cv_Ns,
                                      hg,  cv_mem->cv_znS[1],
                                      ONE, cv_mem->cv_znS[0],
@@ -5334,7 +5335,8 @@ static int cvYddNorm(CVodeMem cv_mem, realtype hg, realtype *yddnrm)
   if (retval < 0) return(CV_RHSFUNC_FAIL);
   if (retval > 0) return(RHSFUNC_RECVR);
 
-  if (cv_mem->cv_quadr && cv_mem->cv_errconQ) {
+  if (cv_mem->cv_quadr &&
+      (cv_mem->cv_errconQ || (cv_mem->cv_quadr_sensi && cv_mem->cv_errconQS))) {
     retval = cv_mem->cv_fQ(cv_mem->cv_tn+hg, cv_mem->cv_y,
                            cv_mem->cv_tempvQ, cv_mem->cv_user_data);
     cv_mem->cv_nfQe++;
-- 
2.43.0


From 53dd77e2ec1b6924a29f6196742b9a2daeaa2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 38/65] fix: quadrature sensitivities take part in order
 changes of the Adams method

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 25ca77c..38f600b 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5740,6 +5740,9 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
     if (cv_mem->cv_sensi)
       (void) N_VConstVectorArray(cv_mem->cv_Ns, ZERO,
                                  cv_mem->cv_znS[cv_mem->cv_L]);
+    if (cv_mem->cv_quadr_sensi)
+      (void) N_VConstVectorArray(cv_mem->cv_Ns, ZERO,
+                                 cv_mem->cv_znQS[cv_mem->cv_L]);
     return;
   }
 
@@ -5785,6 +5788,13 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
                                          cv_mem->cv_znS[cv_mem->cv_q],
                                          cv_mem->cv_znS+2,
                                          cv_mem->cv_znS+2);
+
+    if (cv_mem->cv_quadr_sensi)
+      (void) N_VScaleAddMultiVectorArray(cv_mem->cv_Ns, cv_mem->cv_q-2,
+                                         cv_mem->cv_cvals,
+                                         cv_mem->cv_znQS[cv_mem->cv_q],
+                                         cv_mem->cv_znQS+2,
+                                         cv_mem->cv_znQS+2);
   }
 
 }
-- 
2.43.0


From 9c16a471c2cbc03405177ccacb98e9d348254507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:41 +0000
Subject: [PATCH 39/65] fix: CVODES adjoint: polynomial interpolation of the
 forward solution reads its data points in the wrong order or out of bounds

---
 lib/sundials-6.1.1/src/cvodes/cvodea.c | 63 ++++++++------------------
 1 file changed, 20 insertions(+), 43 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodea.c b/lib/sundials-6.1.1/src/cvodes/cvodea.c
index 30e03e7..a61e687 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodea.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodea.c
@@ -2992,7 +2992,7 @@ static int CVApolynomialGetY(CVodeMem cv_mem, realtype t,
   DtpntMem *dt_mem;
   PolynomialDataMem content;
 
-  int flag, dir, order, i, j, is, NS, retval;
+  int flag, order, i, j, is, NS, retval;
   long int indx, base;
   booleantype newpoint;
   realtype dt, factor;
@@ -3030,56 +3030,33 @@ static int CVApolynomialGetY(CVodeMem cv_mem, realtype t,
 
   dt = SUNRabs(dt_mem[indx]->t - dt_mem[indx-1]->t);
 
-  /* Find the direction of the forward integration */
+  /* Establish the base point. Modify it if there are not enough points
+     before it for the current order, and the order if there are not enough
+     points at all. The points are in the order of the forward integration,
+     whatever its direction. */
 
-  dir = (ca_mem->ca_tfinal - ca_mem->ca_tinitial > ZERO) ? 1 : -1;
-
-  /* Establish the base point depending on the integration direction.
-     Modify the base if there are not enough points for the current order */
-
-  if (dir == 1) {
-    base = indx;
-    content = (PolynomialDataMem) (dt_mem[base]->content);
-    order = content->order;
-    if(indx < order) base += order-indx;
-  } else {
-    base = indx-1;
-    content = (PolynomialDataMem) (dt_mem[base]->content);
-    order = content->order;
-    if (ca_mem->ca_np-indx > order) base -= indx+order-ca_mem->ca_np;
-  }
+  base = indx;
+  content = (PolynomialDataMem) (dt_mem[base]->content);
+  order = content->order;
+  if (order > ca_mem->ca_np-1) order = (int) (ca_mem->ca_np-1);
+  if (indx < order) base += order-indx;
 
   /* Recompute Y (divided differences for Newton polynomial) if needed */
 
   if (newpoint) {
 
     /* Store 0-th order DD */
-    if (dir == 1) {
-      for(j=0;j<=order;j++) {
-        ca_mem->ca_T[j] = dt_mem[base-j]->t;
-        content = (PolynomialDataMem) (dt_mem[base-j]->content);
-        N_VScale(ONE, content->y, ca_mem->ca_Y[j]);
+    for(j=0;j<=order;j++) {
+      ca_mem->ca_T[j] = dt_mem[base-j]->t;
+      content = (PolynomialDataMem) (dt_mem[base-j]->content);
+      N_VScale(ONE, content->y, ca_mem->ca_Y[j]);
 
-        if (NS > 0) {
-          for (is=0; is<NS; is++)
-            cv_mem->cv_cvals[is] = ONE;
-          retval = N_VScaleVectorArray(NS, cv_mem->cv_cvals,
-                                       content->yS, ca_mem->ca_YS[j]);
-          if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
-        }
-      }
-    } else {
-      for(j=0;j<=order;j++) {
-        ca_mem->ca_T[j] = dt_mem[base-1+j]->t;
-        content = (PolynomialDataMem) (dt_mem[base-1+j]->content);
-        N_VScale(ONE, content->y, ca_mem->ca_Y[j]);
-        if (NS > 0) {
-          for (is=0; is<NS; is++)
-            cv_mem->cv_cvals[is] = ONE;
-          retval = N_VScaleVectorArray(NS, cv_mem->cv_cvals,
-                                       content->yS, ca_mem->ca_YS[j]);
-          if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
-        }
+      if (NS > 0) {
+        for (is=0; is<NS; is++)
+          cv_mem->cv_cvals[is] = ONE;
+        retval = N_VScaleVectorArray(NS, cv_mem->cv_cvals,
+                                     content->yS, ca_mem->ca_YS[j]);
+        if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
       }
     }
 
-- 
2.43.0


From 4b0823a02124826102a1c00bedc60e8033b248cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:43 +0000
Subject: [PATCH 40/65] fix: CVODES adjoint: interpolation interval of the
 forward solution: stale polynomial after the first point, search out of
 bounds

---
 lib/sundials-6.1.1/src/cvodes/cvodea.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodea.c b/lib/sundials-6.1.1/src/cvodes/cvodea.c
index a61e687..b7d707c 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodea.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodea.c
@@ -2329,6 +2329,15 @@ static int CVAfindIndex(CVodeMem cv_mem, realtype t,
     ca_mem->ca_IMnewData = SUNFALSE;
   }
 
+  /* With a single data point there is no interval to search for */
+  if (ca_mem->ca_np == 1) {
+    *indx = 0;
+    if ( SUNRabs(t - dt_mem[0]->t) > FUZZ_FACTOR * cv_mem->cv_uround ) {
+      return(CV_GETY_BADT);
+    }
+    return(CV_SUCCESS);
+  }
+
   /* Search for indx starting from ilast */
   to_left  = ( sign*(t - dt_mem[ca_mem->ca_ilast-1]->t) < ZERO);
   to_right = ( sign*(t - dt_mem[ca_mem->ca_ilast]->t)   > ZERO);
@@ -2355,6 +2364,9 @@ static int CVAfindIndex(CVodeMem cv_mem, realtype t,
       if ( SUNRabs(t - dt_mem[0]->t) > FUZZ_FACTOR * cv_mem->cv_uround ) {
         return(CV_GETY_BADT);
       }
+      /* The interpolation polynomial of the first interval is not computed
+         in this case: do not take it for granted in the next call. */
+      ca_mem->ca_IMnewData = SUNTRUE;
     }
 
   } else if ( to_right ) {
@@ -2364,6 +2376,7 @@ static int CVAfindIndex(CVodeMem cv_mem, realtype t,
 
     *indx = ca_mem->ca_ilast;
     for(;;) {
+      if ( *indx == ca_mem->ca_np-1 ) break;
       if ( sign*(t - dt_mem[*indx]->t) > ZERO) (*indx)++;
       else                                     break;
     }
-- 
2.43.0


From 111beb0d207e3e09d128ffc638de8b2e43ee80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:45 +0000
Subject: [PATCH 41/65] fix: CVODES adjoint: interpolation of the forward
 sensitivities uses the polynomials of another interval after CVodeGetAdjY

---
 lib/sundials-6.1.1/src/cvodes/cvodea.c | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodea.c b/lib/sundials-6.1.1/src/cvodes/cvodea.c
index b7d707c..7835d3b 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodea.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodea.c
@@ -2669,7 +2669,7 @@ static int CVAhermiteGetY(CVodeMem cv_mem, realtype t,
   N_Vector y0, yd0, y1, yd1;
   N_Vector *yS0=NULL, *ySd0=NULL, *yS1, *ySd1;
 
-  int flag, is, NS;
+  int flag, is, NS, NSY;
   long int indx;
   booleantype newpoint;
 
@@ -2686,6 +2686,11 @@ static int CVAhermiteGetY(CVodeMem cv_mem, realtype t,
 
   NS = (ca_mem->ca_IMinterpSensi && (yS != NULL)) ? cv_mem->cv_Ns : 0;
 
+  /* The polynomials of the sensitivities are kept up to date even if they are
+     not evaluated in this call */
+
+  NSY = ca_mem->ca_IMinterpSensi ? cv_mem->cv_Ns : 0;
+
   /* Get the index in dt_mem */
 
   flag = CVAfindIndex(cv_mem, t, &indx, &newpoint);
@@ -2752,7 +2757,7 @@ static int CVAhermiteGetY(CVodeMem cv_mem, realtype t,
 
     /* Recompute YS0 and YS1, if needed */
 
-    if (NS > 0) {
+    if (NSY > 0) {
 
       yS1  = content1->yS;
       ySd1 = content1->ySd;
@@ -2763,7 +2768,7 @@ static int CVAhermiteGetY(CVodeMem cv_mem, realtype t,
       cvals[2] = delta;  XXvecs[2] = ySd1;
       cvals[3] = delta;  XXvecs[3] = ySd0;
 
-      retval = N_VLinearCombinationVectorArray(NS, 4, cvals, XXvecs, ca_mem->ca_YS[1]);
+      retval = N_VLinearCombinationVectorArray(NSY, 4, cvals, XXvecs, ca_mem->ca_YS[1]);
       if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
 
       /* YS0 = yS1 - yS0 - delta * ySd0 */
@@ -2771,7 +2776,7 @@ static int CVAhermiteGetY(CVodeMem cv_mem, realtype t,
       cvals[1] = -ONE;    XXvecs[1] = yS0;
       cvals[2] = -delta;  XXvecs[2] = ySd0;
 
-      retval = N_VLinearCombinationVectorArray(NS, 3, cvals, XXvecs, ca_mem->ca_YS[0]);
+      retval = N_VLinearCombinationVectorArray(NSY, 3, cvals, XXvecs, ca_mem->ca_YS[0]);
       if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
 
     }
@@ -3005,7 +3010,7 @@ static int CVApolynomialGetY(CVodeMem cv_mem, realtype t,
   DtpntMem *dt_mem;
   PolynomialDataMem content;
 
-  int flag, order, i, j, is, NS, retval;
+  int flag, order, i, j, is, NS, NSY, retval;
   long int indx, base;
   booleantype newpoint;
   realtype dt, factor;
@@ -3017,6 +3022,11 @@ static int CVApolynomialGetY(CVodeMem cv_mem, realtype t,
 
   NS = (ca_mem->ca_IMinterpSensi && (yS != NULL)) ? cv_mem->cv_Ns : 0;
 
+  /* The polynomials of the sensitivities are kept up to date even if they are
+     not evaluated in this call */
+
+  NSY = ca_mem->ca_IMinterpSensi ? cv_mem->cv_Ns : 0;
+
   /* Get the index in dt_mem */
 
   flag = CVAfindIndex(cv_mem, t, &indx, &newpoint);
@@ -3064,10 +3074,10 @@ static int CVApolynomialGetY(CVodeMem cv_mem, realtype t,
       content = (PolynomialDataMem) (dt_mem[base-j]->content);
       N_VScale(ONE, content->y, ca_mem->ca_Y[j]);
 
-      if (NS > 0) {
-        for (is=0; is<NS; is++)
+      if (NSY > 0) {
+        for (is=0; is<NSY; is++)
           cv_mem->cv_cvals[is] = ONE;
-        retval = N_VScaleVectorArray(NS, cv_mem->cv_cvals,
+        retval = N_VScaleVectorArray(NSY, cv_mem->cv_cvals,
                                      content->yS, ca_mem->ca_YS[j]);
         if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
       }
@@ -3079,8 +3089,8 @@ static int CVApolynomialGetY(CVodeMem cv_mem, realtype t,
         factor = dt/(ca_mem->ca_T[j]-ca_mem->ca_T[j-i]);
         N_VLinearSum(factor, ca_mem->ca_Y[j], -factor, ca_mem->ca_Y[j-1], ca_mem->ca_Y[j]);
 
-        if (NS > 0) {
-          retval = N_VLinearSumVectorArray(NS,
+        if (NSY > 0) {
+          retval = N_VLinearSumVectorArray(NSY,
                                            factor,  ca_mem->ca_YS[j],
                                            -factor, ca_mem->ca_YS[j-1],
                                            ca_mem->ca_YS[j]);
-- 
2.43.0


From d5a6275911c3c74ac05403dd92ab4cbf1929c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:47 +0000
Subject: [PATCH 42/65] fix: CVODES adjoint: recomputation from a checkpoint
 writes past the array of data points

---
 lib/sundials-6.1.1/src/cvodes/cvodea.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodea.c b/lib/sundials-6.1.1/src/cvodes/cvodea.c
index 7835d3b..54fd58d 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodea.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodea.c
@@ -2125,7 +2125,7 @@ static int CVAdataStore(CVodeMem cv_mem, CkpntMem ck_mem)
 
   /* Run CVode to set following structures in dt_mem[i] */
   i = 1;
-  do {
+  for(;;) {
 
     flag = CVode(cv_mem, ck_mem->ck_t1, ca_mem->ca_ytmp, &t, CV_ONE_STEP);
     if (flag < 0) return(CV_FWD_FAIL);
@@ -2134,7 +2134,18 @@ static int CVAdataStore(CVodeMem cv_mem, CkpntMem ck_mem)
     ca_mem->ca_IMstore(cv_mem, dt_mem[i]);
     i++;
 
-  } while ( sign*(ck_mem->ck_t1 - t) > ZERO );
+    if ( sign*(ck_mem->ck_t1 - t) <= ZERO ) break;
+
+    /* There is room for as many steps as were taken in the first pass. They
+       can end before ck_t1, mostly by roundoff. If it is more than that, the
+       last interval is extended by further steps. */
+    if ( i > ca_mem->ca_nsteps ) {
+      if ( SUNRabs(ck_mem->ck_t1 - t) <= FUZZ_FACTOR * cv_mem->cv_uround *
+           (SUNRabs(ck_mem->ck_t1) + SUNRabs(cv_mem->cv_hu)) ) break;
+      i = ca_mem->ca_nsteps;
+    }
+
+  }
 
 
   ca_mem->ca_IMnewData = SUNTRUE;     /* New data is now available    */
-- 
2.43.0


From 40198c797da485ecfdbce57d4af129c405396ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:49 +0000
Subject: [PATCH 43/65] fix: CVODES adjoint: recomputation from the first
 checkpoint changes the initial step of later integrations

---
 lib/sundials-6.1.1/src/cvodes/cvodea.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodea.c b/lib/sundials-6.1.1/src/cvodes/cvodea.c
index 54fd58d..b15252d 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodea.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodea.c
@@ -2099,13 +2099,15 @@ static int CVAdataStore(CVodeMem cv_mem, CkpntMem ck_mem)
 {
   CVadjMem ca_mem;
   DtpntMem *dt_mem;
-  realtype t;
+  realtype t, hin;
   long int i;
   int flag, sign;
 
   ca_mem = cv_mem->cv_adj_mem;
   dt_mem = ca_mem->dt_mem;
 
+  hin = cv_mem->cv_hin;
+
   /* Initialize cv_mem with data from ck_mem */
   flag = CVAckpntGet(cv_mem, ck_mem);
   if (flag != CV_SUCCESS)
@@ -2128,6 +2130,10 @@ static int CVAdataStore(CVodeMem cv_mem, CkpntMem ck_mem)
   for(;;) {
 
     flag = CVode(cv_mem, ck_mem->ck_t1, ca_mem->ca_ytmp, &t, CV_ONE_STEP);
+
+    /* the initial step of the first pass is not for later integrations */
+    cv_mem->cv_hin = hin;
+
     if (flag < 0) return(CV_FWD_FAIL);
 
     dt_mem[i]->t = t;
-- 
2.43.0


From 9547cc9bb305274838b127e5a3bab6b9e888be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:51 +0000
Subject: [PATCH 44/65] fix: CVODES adjoint: CVodeB returns a solution at
 another time than the one reported

---
 lib/sundials-6.1.1/src/cvodes/cvodea.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodea.c b/lib/sundials-6.1.1/src/cvodes/cvodea.c
index b15252d..02a46a9 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodea.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodea.c
@@ -1470,6 +1470,14 @@ int CVodeB(void *cvode_mem, realtype tBout, int itaskB)
 
       } else {
         flag = CV_SUCCESS;
+
+        /* The last call may have returned a solution at a time before tBn */
+        if (tmp_cvB_mem->cv_mem->cv_tretlast != tBn) {
+          flag = CVodeGetDky(tmp_cvB_mem->cv_mem, tBn, 0, tmp_cvB_mem->cv_y);
+          if (flag < 0) break;
+          tmp_cvB_mem->cv_mem->cv_tretlast = tBn;
+        }
+
         tmp_cvB_mem->cv_tout = tBn;
       }
 
-- 
2.43.0


From 857d4790e119eb6c667f5aa78464621f9ca3cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:47 +0000
Subject: [PATCH 45/65] fix: CVODES: difference quotients of sensitivities
 restore the parameter when a call fails

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 34 ++++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 38f600b..e406854 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -8821,7 +8821,7 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
                          N_Vector ytemp, N_Vector ftemp)
 {
   CVodeMem cv_mem;
-  int retval, method;
+  int retval = 0, method;
   int nfel = 0, which;
   realtype psave, pbari;
   realtype delta , rdelta;
@@ -8876,14 +8876,14 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
     retval = cv_mem->cv_f(t, ytemp, ySdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(ONE,y,-Delta,yS,ytemp);
     cv_mem->cv_p[which] = psave - Delta;
 
     retval = cv_mem->cv_f(t, ytemp, ftemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(r2Delta,ySdot,-r2Delta,ftemp,ySdot);
 
@@ -8898,25 +8898,25 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
     retval = cv_mem->cv_f(t, ytemp, ySdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(ONE,y,-Deltay,yS,ytemp);
 
     retval = cv_mem->cv_f(t, ytemp, ftemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(r2Deltay, ySdot, -r2Deltay, ftemp, ySdot);
 
     cv_mem->cv_p[which] = psave + Deltap;
     retval = cv_mem->cv_f(t, y, ytemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     cv_mem->cv_p[which] = psave - Deltap;
     retval = cv_mem->cv_f(t, y, ftemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* ySdot = ySdot + r2Deltap * ytemp - r2Deltap * ftemp */
     cvals[0] = ONE;        Xvecs[0] = ySdot;
@@ -8938,7 +8938,7 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
     retval = cv_mem->cv_f(t, ytemp, ySdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(rDelta,ySdot,-rDelta,ydot,ySdot);
 
@@ -8950,14 +8950,14 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
     retval = cv_mem->cv_f(t, ytemp, ySdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(rDeltay, ySdot, -rDeltay, ydot, ySdot);
 
     cv_mem->cv_p[which] = psave + Deltap;
     retval = cv_mem->cv_f(t, y, ytemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* ySdot = ySdot + rDeltap * ytemp - rDeltap * ydot */
     cvals[0] = ONE;       Xvecs[0] = ySdot;
@@ -8971,12 +8971,13 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
   }
 
+  /* Restore the parameter, also after a failed call */
   cv_mem->cv_p[which] = psave;
 
   /* Increment counter nfeS */
   cv_mem->cv_nfeS += nfel;
 
-  return(0);
+  return(retval);
 }
 
 
@@ -9016,7 +9017,7 @@ static int cvQuadSensRhs1InternalDQ(CVodeMem cv_mem, int is, realtype t,
                                     N_Vector yQdot, N_Vector yQSdot,
                                     N_Vector tmp, N_Vector tmpQ)
 {
-  int retval, method;
+  int retval = 0, method;
   int nfel = 0, which;
   realtype psave, pbari;
   realtype delta , rdelta;
@@ -9053,14 +9054,14 @@ static int cvQuadSensRhs1InternalDQ(CVodeMem cv_mem, int is, realtype t,
 
     retval = cv_mem->cv_fQ(t, tmp, yQSdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(ONE, y, -Delta, yS, tmp);
     cv_mem->cv_p[which] = psave - Delta;
 
     retval = cv_mem->cv_fQ(t, tmp, tmpQ, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(r2Delta, yQSdot, -r2Delta, tmpQ, yQSdot);
 
@@ -9076,7 +9077,7 @@ static int cvQuadSensRhs1InternalDQ(CVodeMem cv_mem, int is, realtype t,
 
     retval = cv_mem->cv_fQ(t, tmp, yQSdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(rDelta, yQSdot, -rDelta, yQdot, yQSdot);
 
@@ -9084,12 +9085,13 @@ static int cvQuadSensRhs1InternalDQ(CVodeMem cv_mem, int is, realtype t,
 
   }
 
+  /* Restore the parameter, also after a failed call */
   cv_mem->cv_p[which] = psave;
 
   /* Increment counter nfQeS */
   cv_mem->cv_nfQeS += nfel;
 
-  return(0);
+  return(retval);
 }
 
 
-- 
2.43.0


From 9c92f2b5a19151f91d0547f79cc876cbd039320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:59 +0000
Subject: [PATCH 46/65] fix: fixed-point solver returns the failure of the
 system function

---
 .../src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c b/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
index fcfac69..abb5c95 100644
--- a/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
+++ b/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
@@ -233,7 +233,10 @@ int SUNNonlinSolSolve_FixedPoint(SUNNonlinearSolver NLS, N_Vector y0,
 
     /* compute fixed-point iteration function, store in gy */
     retval = FP_CONTENT(NLS)->Sys(ycor, gy, mem);
-    if (retval != SUN_NLS_SUCCESS) break;
+    if (retval != SUN_NLS_SUCCESS) {
+      FP_CONTENT(NLS)->nconvfails++;
+      return(retval);
+    }
 
     /* perform fixed point update, based on choice of acceleration or not */
     if (FP_CONTENT(NLS)->m == 0) {    /* basic fixed-point solver */
-- 
2.43.0


From c67bc4120712ac901d8508916935e5276a6dba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:15 +0000
Subject: [PATCH 47/65] fix: CVODES: failure of the right-hand side after the
 states of a staggered step is handled

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index e406854..3af71da 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5437,7 +5437,7 @@ static int cvStep(CVodeMem cv_mem)
 {
   realtype saved_t, dsm, dsmQ, dsmS, dsmQS;
   booleantype do_sensi_stg, do_sensi_stg1;
-  int ncf, ncfS;
+  int ncf, ncfF, ncfS;
   int nef, nefQ, nefS, nefQS;
   int nflag, kflag, eflag;
   int retval, is;
@@ -5450,6 +5450,7 @@ static int cvStep(CVodeMem cv_mem)
   /* Initialize local counters for convergence and error test failures */
 
   ncf  = nef  = 0;
+  ncfF = 0;
   nefQ = nefQS = 0;
   ncfS = nefS = 0;
   if (do_sensi_stg1) {
@@ -5536,10 +5537,11 @@ static int cvStep(CVodeMem cv_mem)
       retval = cv_mem->cv_f(cv_mem->cv_tn, cv_mem->cv_y,
                             cv_mem->cv_ftemp, cv_mem->cv_user_data);
       cv_mem->cv_nfe++;
-      if (retval < 0) return(CV_RHSFUNC_FAIL);
-      if (retval > 0) {
-        nflag = PREV_CONV_FAIL;
-        continue;
+      if (retval != 0) {
+        nflag = (retval < 0) ? CV_RHSFUNC_FAIL : RHSFUNC_RECVR;
+        kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncfF, &(cv_mem->cv_ncfn));
+        if (kflag == PREDICT_AGAIN) continue;
+        return(kflag);
       }
 
       if (do_sensi_stg) {
-- 
2.43.0


From 1c6a011ae7ed5feb88df577b1c3c1600ba8de81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:23 +0000
Subject: [PATCH 48/65] fix: CVODES: repeated failures of integrands end the
 step

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 3af71da..c9e9f18 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5437,7 +5437,7 @@ static int cvStep(CVodeMem cv_mem)
 {
   realtype saved_t, dsm, dsmQ, dsmS, dsmQS;
   booleantype do_sensi_stg, do_sensi_stg1;
-  int ncf, ncfF, ncfS;
+  int ncf, ncfF, ncfS, ncfQ, ncfQS;
   int nef, nefQ, nefS, nefQS;
   int nflag, kflag, eflag;
   int retval, is;
@@ -5450,7 +5450,7 @@ static int cvStep(CVodeMem cv_mem)
   /* Initialize local counters for convergence and error test failures */
 
   ncf  = nef  = 0;
-  ncfF = 0;
+  ncfF = ncfQ = ncfQS = 0;
   nefQ = nefQS = 0;
   ncfS = nefS = 0;
   if (do_sensi_stg1) {
@@ -5503,7 +5503,7 @@ static int cvStep(CVodeMem cv_mem)
       ncf = nef = 0; /* reset counters for states */
 
       nflag = cvQuadNls(cv_mem);
-      kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncf, &(cv_mem->cv_ncfn));
+      kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncfQ, &(cv_mem->cv_ncfn));
 
       if (kflag == PREDICT_AGAIN) continue;
       if (kflag != DO_ERROR_TEST) return(kflag);
@@ -5601,7 +5601,7 @@ static int cvStep(CVodeMem cv_mem)
        * (stored in cvQuadNls) and can be used in evaluating fQS */
 
       nflag = cvQuadSensNls(cv_mem);
-      kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncf, &(cv_mem->cv_ncfn));
+      kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncfQS, &(cv_mem->cv_ncfn));
 
       if (kflag == PREDICT_AGAIN) continue;
       if (kflag != DO_ERROR_TEST) return(kflag);
-- 
2.43.0


From caef603d0778690ed2f1340c6c62d5fffb8193be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:39 +0000
Subject: [PATCH 49/65] fix: first accelerated KINSOL iteration is damped with
 the acceleration's own factor

---
 lib/sundials-6.1.1/src/kinsol/kinsol.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol.c b/lib/sundials-6.1.1/src/kinsol/kinsol.c
index 7037035..78321df 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol.c
@@ -2755,7 +2755,7 @@ static int KINFP(KINMem kin_mem)
       /* tolerance adjustment (first iteration is standard fixed point) */
       if (iter_aa == 0 && kin_mem->kin_damping_aa)
       {
-        tolfac = kin_mem->kin_beta;
+        tolfac = kin_mem->kin_beta_aa;
       }
       else
       {
@@ -2857,8 +2857,8 @@ static int AndersonAcc(KINMem kin_mem, N_Vector gval, N_Vector fv,
     if (kin_mem->kin_damping_aa)
     {
       /* damped fixed point */
-      N_VLinearSum((ONE - kin_mem->kin_beta), xold, kin_mem->kin_beta_aa, gval,
-                   x);
+      N_VLinearSum((ONE - kin_mem->kin_beta_aa), xold, kin_mem->kin_beta_aa,
+                   gval, x);
     }
     else
     {
-- 
2.43.0


From f54531688e0475430b2f65a440a4c6d869767771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:41 +0000
Subject: [PATCH 50/65] fix: KINSetConstraints(NULL) leaves no dangling vector

---
 lib/sundials-6.1.1/src/kinsol/kinsol_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol_io.c b/lib/sundials-6.1.1/src/kinsol/kinsol_io.c
index 9c02f8f..8379b30 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol_io.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol_io.c
@@ -917,6 +917,7 @@ int KINSetConstraints(void *kinmem, N_Vector constraints)
   if (constraints == NULL) {
     if (kin_mem->kin_constraintsSet) {
       N_VDestroy(kin_mem->kin_constraints);
+      kin_mem->kin_constraints = NULL;
       kin_mem->kin_lrw -= kin_mem->kin_lrw1;
       kin_mem->kin_liw -= kin_mem->kin_liw1;
     }
-- 
2.43.0


From ccdf8ea55a1c00d2a7c6d2b70857d3293b3f0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:42 +0000
Subject: [PATCH 51/65] fix: KINSOL Picard iteration reports failures of the
 linear solver as such

---
 lib/sundials-6.1.1/src/kinsol/kinsol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol.c b/lib/sundials-6.1.1/src/kinsol/kinsol.c
index 78321df..c2baa08 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol.c
@@ -2516,7 +2516,7 @@ static int KINPicardAA(KINMem kin_mem)
                               kin_mem->kin_fval);
 
     if (retval < 0) {
-      ret = KIN_SYSFUNC_FAIL;
+      ret = retval;
       break;
     }
 
-- 
2.43.0


From 61f9b081ced5fe583a44e9cd6f2f5b50b5f4d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:44 +0000
Subject: [PATCH 52/65] fix: KINSOL fixed-point and Picard iterations stop at a
 recoverable failure of the system function

---
 lib/sundials-6.1.1/src/kinsol/kinsol.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol.c b/lib/sundials-6.1.1/src/kinsol/kinsol.c
index c2baa08..548044d 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol.c
@@ -537,6 +537,12 @@ int KINSol(void *kinmem, N_Vector u, int strategy_in,
     case KIN_SYSFUNC_FAIL:
       KINProcessError(kin_mem, KIN_SYSFUNC_FAIL, "KINSOL", "KINSol", MSG_SYSFUNC_FAILED);
       break;
+    case KIN_FIRST_SYSFUNC_ERR:
+      KINProcessError(kin_mem, KIN_FIRST_SYSFUNC_ERR, "KINSOL", "KINSol", MSG_SYSFUNC_FIRST);
+      break;
+    case KIN_REPTD_SYSFUNC_ERR:
+      KINProcessError(kin_mem, KIN_REPTD_SYSFUNC_ERR, "KINSOL", "KINSol", MSG_SYSFUNC_REPTD);
+      break;
     case KIN_MAXITER_REACHED:
       KINProcessError(kin_mem, KIN_MAXITER_REACHED, "KINSOL", "KINSol", MSG_MAXITER_REACHED);
       break;
@@ -2567,6 +2573,11 @@ static int KINPicardAA(KINMem kin_mem)
       break;
     }
 
+    if (retval > 0) {
+      ret = KIN_REPTD_SYSFUNC_ERR;
+      break;
+    }
+
     /* Measure || F(x) ||_max */
     kin_mem->kin_fnorm = KINScFNorm(kin_mem, kin_mem->kin_fval,
                                     kin_mem->kin_fscale);
@@ -2713,6 +2724,11 @@ static int KINFP(KINMem kin_mem)
       break;
     }
 
+    if (retval > 0) {
+      ret = (kin_mem->kin_nni == 1) ? KIN_FIRST_SYSFUNC_ERR : KIN_REPTD_SYSFUNC_ERR;
+      break;
+    }
+
     /* compute new solution */
     if (kin_mem->kin_m_aa == 0 || kin_mem->kin_nni - 1 < kin_mem->kin_delay_aa)
     {
-- 
2.43.0


From 9fcc3f8162693f4acb4072c2fe758a9c3b7e8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:46 +0000
Subject: [PATCH 53/65] fix: KINSOL residual monitoring starts anew in each
 solve

---
 lib/sundials-6.1.1/src/kinsol/kinsol.c    | 9 +--------
 lib/sundials-6.1.1/src/kinsol/kinsol_io.c | 1 +
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol.c b/lib/sundials-6.1.1/src/kinsol/kinsol.c
index 548044d..e5c81c7 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol.c
@@ -573,14 +573,6 @@ int KINSol(void *kinmem, N_Vector u, int strategy_in,
   if (kin_mem->kin_inexact_ls && !(kin_mem->kin_noMinEps))
     epsmin = POINT01 * kin_mem->kin_fnormtol;
 
-
-  /* if omega is zero at this point, make sure it will be evaluated
-     at each iteration based on the provided min/max bounds and the
-     current function norm. */
-  if (kin_mem->kin_omega == ZERO) kin_mem->kin_eval_omega = SUNTRUE;
-  else                            kin_mem->kin_eval_omega = SUNFALSE;
-
-
   /* CSW:
      Call fixed point solver for Picard method if requested.
      Note that this should probably be forked off to a part of an
@@ -1491,6 +1483,7 @@ static int KINSolInit(KINMem kin_mem)
   kin_mem->kin_fnorm = N_VWL2Norm(kin_mem->kin_fval, kin_mem->kin_fscale);
   kin_mem->kin_f1norm = HALF * kin_mem->kin_fnorm * kin_mem->kin_fnorm;
   kin_mem->kin_fnorm_sub = kin_mem->kin_fnorm;
+  kin_mem->kin_update_fnorm_sub = SUNFALSE;
 
   if (kin_mem->kin_printfl > 0)
     KINPrintInfo(kin_mem, PRNT_NNI, "KINSOL", "KINSolInit",
diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol_io.c b/lib/sundials-6.1.1/src/kinsol/kinsol_io.c
index 8379b30..0f01dbf 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol_io.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol_io.c
@@ -711,6 +711,7 @@ int KINSetResMonConstValue(void *kinmem, realtype omegaconst)
 
   /* Load omega value. A value of 0 will force using omega_min and omega_max */
   kin_mem->kin_omega = omegaconst;
+  kin_mem->kin_eval_omega = (omegaconst == ZERO) ? SUNTRUE : SUNFALSE;
 
   return(KIN_SUCCESS);
 }
-- 
2.43.0


From fbe36d6a4a5b5f24227c29d9db061d4a88f95b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:47 +0000
Subject: [PATCH 54/65] fix: KINSOL does not take values that are not numbers
 for a solution

---
 lib/sundials-6.1.1/src/kinsol/kinsol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol.c b/lib/sundials-6.1.1/src/kinsol/kinsol.c
index e5c81c7..45c92dc 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol.c
@@ -2238,6 +2238,12 @@ static void KINForcingTerm(KINMem kin_mem, realtype fnormp)
 
 static realtype KINScFNorm(KINMem kin_mem, N_Vector v, N_Vector scale)
 {
+  realtype wl2norm;
+
+  /* the max norm passes over entries that are not a number */
+  wl2norm = N_VWL2Norm(v, scale);
+  if (wl2norm != wl2norm) return(wl2norm);
+
   N_VProd(scale, v, kin_mem->kin_vtemp1);
   return(N_VMaxNorm(kin_mem->kin_vtemp1));
 }
-- 
2.43.0


From 5249eea6ec4aa1687864bc4387a295c49ac17ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:49 +0000
Subject: [PATCH 55/65] fix: KINSOL dense difference quotient restores the
 iterate when the system function fails

---
 lib/sundials-6.1.1/src/kinsol/kinsol_ls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol_ls.c b/lib/sundials-6.1.1/src/kinsol/kinsol_ls.c
index aaea6ca..5727f6a 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol_ls.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol_ls.c
@@ -801,11 +801,12 @@ int kinLsDenseDQJac(N_Vector u, N_Vector fu, SUNMatrix Jac,
 
     retval = kin_mem->kin_func(u, ftemp, kin_mem->kin_user_data);
     kinls_mem->nfeDQ++;
-    if (retval != 0) break;
 
     /* reset u_j */
     u_data[j] = ujsaved;
 
+    if (retval != 0) break;
+
     /* Construct difference quotient in jthCol */
     inc_inv = ONE/inc;
     N_VLinearSum(inc_inv, ftemp, -inc_inv, fu, jthCol);
-- 
2.43.0


From e92cc7fd9522260191449a1914e5bb736d8fc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:51 +0000
Subject: [PATCH 56/65] fix: KINSOL Picard iteration repeats a failed linear
 solve with the same right side

---
 lib/sundials-6.1.1/src/kinsol/kinsol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sundials-6.1.1/src/kinsol/kinsol.c b/lib/sundials-6.1.1/src/kinsol/kinsol.c
index 45c92dc..b108ea2 100644
--- a/lib/sundials-6.1.1/src/kinsol/kinsol.c
+++ b/lib/sundials-6.1.1/src/kinsol/kinsol.c
@@ -2670,6 +2670,7 @@ static int KINPicardFcnEval(KINMem kin_mem, N_Vector gval, N_Vector uval, N_Vect
     /* loop back only if the linear solver setup is in use
        and matrix information is not current */
 
+    N_VScale(-ONE, fval1, fval1);
     kin_mem->kin_sthrsh = TWO;
   }
 
-- 
2.43.0


From c79117ab87ba339ab148cc23978b6e074b37de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:32 +0000
Subject: [PATCH 57/65] fix: CVODES integrates the adjustment polynomial when
 the Adams order is lowered

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index c9e9f18..d727930 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5767,7 +5767,7 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
       cv_mem->cv_l[i] = cv_mem->cv_l[i]*xi + cv_mem->cv_l[i-1];
   }
 
-  for (j=1; j <= cv_mem->cv_q-2; j++)
+  for (j=cv_mem->cv_q-2; j >= 1; j--)
     cv_mem->cv_l[j+1] = cv_mem->cv_q * (cv_mem->cv_l[j] / (j+1));
 
   if (cv_mem->cv_q > 2) {
-- 
2.43.0


From dd3a34c352bee601f515f4ee9f069b10401cf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 58/65] fix: IDAS polynomial interpolation reads the forward
 data in the wrong order and past the data

---
 lib/sundials-6.1.1/src/idas/idaa.c | 65 ++++++++++--------------------
 1 file changed, 21 insertions(+), 44 deletions(-)

diff --git a/lib/sundials-6.1.1/src/idas/idaa.c b/lib/sundials-6.1.1/src/idas/idaa.c
index 54102a3..1e5ff60 100644
--- a/lib/sundials-6.1.1/src/idas/idaa.c
+++ b/lib/sundials-6.1.1/src/idas/idaa.c
@@ -3016,7 +3016,7 @@ static int IDAApolynomialGetY(IDAMem IDA_mem, realtype t,
   DtpntMem *dt_mem;
   PolynomialDataMem content;
 
-  int flag, dir, order, i, j, is, NS, retval;
+  int flag, order, i, j, is, NS, retval;
   long int indx, base;
   booleantype newpoint;
   realtype delt, factor, Psi, Psiprime;
@@ -3056,56 +3056,33 @@ static int IDAApolynomialGetY(IDAMem IDA_mem, realtype t,
   /* Scaling factor */
   delt = SUNRabs(dt_mem[indx]->t - dt_mem[indx-1]->t);
 
-  /* Find the direction of the forward integration */
-  dir = (IDAADJ_mem->ia_tfinal - IDAADJ_mem->ia_tinitial > ZERO) ? 1 : -1;
+  /* Establish the base point. Modify it if there are not enough points
+     before it for the current order, and the order if there are not enough
+     points at all. The points are in the order of the forward integration,
+     whatever its direction. */
 
-  /* Establish the base point depending on the integration direction.
-     Modify the base if there are not enough points for the current order */
-
-  if (dir == 1) {
-    base = indx;
-    content = (PolynomialDataMem) (dt_mem[base]->content);
-    order = content->order;
-    if(indx < order) base += order-indx;
-  } else {
-    base = indx-1;
-    content = (PolynomialDataMem) (dt_mem[base]->content);
-    order = content->order;
-    if (IDAADJ_mem->ia_np-indx > order) base -= indx+order-IDAADJ_mem->ia_np;
-  }
+  base = indx;
+  content = (PolynomialDataMem) (dt_mem[base]->content);
+  order = content->order;
+  if (order > IDAADJ_mem->ia_np-1) order = (int) (IDAADJ_mem->ia_np-1);
+  if (indx < order) base += order-indx;
 
   /* Recompute Y (divided differences for Newton polynomial) if needed */
 
   if (newpoint) {
 
     /* Store 0-th order DD */
-    if (dir == 1) {
-      for(j=0;j<=order;j++) {
-        IDAADJ_mem->ia_T[j] = dt_mem[base-j]->t;
-        content = (PolynomialDataMem) (dt_mem[base-j]->content);
-        N_VScale(ONE, content->y, IDAADJ_mem->ia_Y[j]);
-
-        if (NS > 0) {
-          for (is=0; is<NS; is++)
-            IDA_mem->ida_cvals[is] = ONE;
-          retval = N_VScaleVectorArray(NS, IDA_mem->ida_cvals,
-                                       content->yS, IDAADJ_mem->ia_YS[j]);
-          if (retval != IDA_SUCCESS) return (IDA_VECTOROP_ERR);
-        }
-      }
-    } else {
-      for(j=0;j<=order;j++) {
-        IDAADJ_mem->ia_T[j] = dt_mem[base-1+j]->t;
-        content = (PolynomialDataMem) (dt_mem[base-1+j]->content);
-        N_VScale(ONE, content->y, IDAADJ_mem->ia_Y[j]);
-
-        if (NS > 0) {
-          for (is=0; is<NS; is++)
-            IDA_mem->ida_cvals[is] = ONE;
-          retval = N_VScaleVectorArray(NS, IDA_mem->ida_cvals,
-                                       content->yS, IDAADJ_mem->ia_YS[j]);
-          if (retval != IDA_SUCCESS) return (IDA_VECTOROP_ERR);
-        }
+    for(j=0;j<=order;j++) {
+      IDAADJ_mem->ia_T[j] = dt_mem[base-j]->t;
+      content = (PolynomialDataMem) (dt_mem[base-j]->content);
+      N_VScale(ONE, content->y, IDAADJ_mem->ia_Y[j]);
+
+      if (NS > 0) {
+        for (is=0; is<NS; is++)
+          IDA_mem->ida_cvals[is] = ONE;
+        retval = N_VScaleVectorArray(NS, IDA_mem->ida_cvals,
+                                     content->yS, IDAADJ_mem->ia_YS[j]);
+        if (retval != IDA_SUCCESS) return (IDA_VECTOROP_ERR);
       }
     }
 
-- 
2.43.0


From 0945a74a460a3206bf5cb709b7527c602ccacab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 59/65] fix: IDAS takes the interpolation polynomial of another
 interval for granted and searches past the data

---
 lib/sundials-6.1.1/src/idas/idaa.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/sundials-6.1.1/src/idas/idaa.c b/lib/sundials-6.1.1/src/idas/idaa.c
index 1e5ff60..d48f002 100644
--- a/lib/sundials-6.1.1/src/idas/idaa.c
+++ b/lib/sundials-6.1.1/src/idas/idaa.c
@@ -3286,6 +3286,15 @@ static int IDAAfindIndex(IDAMem ida_mem, realtype t,
     IDAADJ_mem->ia_newData   = SUNFALSE;
   }
 
+  /* With a single data point there is no interval to search for */
+  if (IDAADJ_mem->ia_np == 1) {
+    *indx = 0;
+    if ( SUNRabs(t - dt_mem[0]->t) > FUZZ_FACTOR * IDA_mem->ida_uround ) {
+      return(IDA_GETY_BADT);
+    }
+    return(IDA_SUCCESS);
+  }
+
   /* Search for indx starting from ilast */
   to_left  = ( sign*(t - dt_mem[IDAADJ_mem->ia_ilast-1]->t) < ZERO);
   to_right = ( sign*(t - dt_mem[IDAADJ_mem->ia_ilast]->t)   > ZERO);
@@ -3312,6 +3321,9 @@ static int IDAAfindIndex(IDAMem ida_mem, realtype t,
       if ( SUNRabs(t - dt_mem[0]->t) > FUZZ_FACTOR * IDA_mem->ida_uround ) {
         return(IDA_GETY_BADT);
       }
+      /* The interpolation polynomial of the first interval is not computed
+         in this case: do not take it for granted in the next call. */
+      IDAADJ_mem->ia_newData = SUNTRUE;
     }
 
   } else if ( to_right ) {
@@ -3321,6 +3333,7 @@ static int IDAAfindIndex(IDAMem ida_mem, realtype t,
 
     *indx = IDAADJ_mem->ia_ilast;
     for(;;) {
+      if ( *indx == IDAADJ_mem->ia_np-1 ) break;
       if ( sign*(t - dt_mem[*indx]->t) > ZERO) (*indx)++;
       else                                     break;
     }
-- 
2.43.0


From 7990fa7a59a2d32b372e29038a65b1070157b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 60/65] fix: IDAS checkpoints copy history vectors never
 allocated for a reduced maximum order

---
 lib/sundials-6.1.1/src/idas/idaa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sundials-6.1.1/src/idas/idaa.c b/lib/sundials-6.1.1/src/idas/idaa.c
index d48f002..6bb40ff 100644
--- a/lib/sundials-6.1.1/src/idas/idaa.c
+++ b/lib/sundials-6.1.1/src/idas/idaa.c
@@ -1822,7 +1822,7 @@ static CkpntMem IDAAckpntInit(IDAMem IDA_mem)
   ck_mem->ck_quadr_sensi = IDA_mem->ida_quadr_sensi && IDA_mem->ida_errconQS;
 
   /* Alloc 3: current order, i.e. 1,  +   2. */
-  ck_mem->ck_phi_alloc = 3;
+  ck_mem->ck_phi_alloc = SUNMIN(3, IDA_mem->ida_maxord+1);
 
   if (!IDAAckpntAllocVectors(IDA_mem, ck_mem)) {
     free(ck_mem); ck_mem = NULL;
@@ -1889,8 +1889,8 @@ static CkpntMem IDAAckpntNew(IDAMem IDA_mem)
   /* Test if we need to carry quadrature sensitivities */
   ck_mem->ck_quadr_sensi = IDA_mem->ida_quadr_sensi && IDA_mem->ida_errconQS;
 
-  ck_mem->ck_phi_alloc = (IDA_mem->ida_kk+2 < MXORDP1) ?
-    IDA_mem->ida_kk+2 : MXORDP1;
+  ck_mem->ck_phi_alloc = SUNMIN(IDA_mem->ida_kk+2,
+                                SUNMAX(IDA_mem->ida_kk, IDA_mem->ida_maxord)+1);
 
   if (!IDAAckpntAllocVectors(IDA_mem, ck_mem)) {
     free(ck_mem); ck_mem = NULL;
-- 
2.43.0


From 0b8cfdf668bde6304b2f27213a56b7737e5d63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 61/65] fix: IDAS takes a failing Jacobian times vector product
 as success

---
 lib/sundials-6.1.1/src/idas/idas_ls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/sundials-6.1.1/src/idas/idas_ls.c b/lib/sundials-6.1.1/src/idas/idas_ls.c
index 7cef4ad..9a9f481 100644
--- a/lib/sundials-6.1.1/src/idas/idas_ls.c
+++ b/lib/sundials-6.1.1/src/idas/idas_ls.c
@@ -1547,6 +1547,7 @@ int idaLsSolve(IDAMem IDA_mem, N_Vector b, N_Vector weight,
     break;
   case SUNLS_RES_REDUCED:
   case SUNLS_CONV_FAIL:
+  case SUNLS_ATIMES_FAIL_REC:
   case SUNLS_PSOLVE_FAIL_REC:
   case SUNLS_PACKAGE_FAIL_REC:
   case SUNLS_QRFACT_FAIL:
@@ -1566,6 +1567,11 @@ int idaLsSolve(IDAMem IDA_mem, N_Vector b, N_Vector weight,
                     "Failure in SUNLinSol external package");
     return(-1);
     break;
+  case SUNLS_ATIMES_FAIL_UNREC:
+    IDAProcessError(IDA_mem, SUNLS_ATIMES_FAIL_UNREC, "IDASLS",
+                    "idaLsSolve", MSG_LS_JTIMES_FAILED);
+    return(-1);
+    break;
   case SUNLS_PSOLVE_FAIL_UNREC:
     IDAProcessError(IDA_mem, SUNLS_PSOLVE_FAIL_UNREC, "IDASLS",
                     "idaLsSolve", MSG_LS_PSOLVE_FAILED);
-- 
2.43.0


From baf2401fa75b63122ed5ff0c20c4e503722c205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 62/65] fix: IDAS continues a step without restoring it after a
 recoverable residual failure

---
 lib/sundials-6.1.1/src/idas/idas.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/sundials-6.1.1/src/idas/idas.c b/lib/sundials-6.1.1/src/idas/idas.c
index 9f67bb4..1e1bbfb 100644
--- a/lib/sundials-6.1.1/src/idas/idas.c
+++ b/lib/sundials-6.1.1/src/idas/idas.c
@@ -5439,13 +5439,20 @@ static int IDAStep(IDAMem IDA_mem)
                                 IDA_mem->ida_delta, IDA_mem->ida_user_data);
 
       if (retval < 0) return(IDA_RES_FAIL);
-      if (retval > 0) continue;
 
-      /* Compute predicted values for yyS and ypS */
-      IDASensPredict(IDA_mem, IDA_mem->ida_yySpredict, IDA_mem->ida_ypSpredict);
+      if (retval > 0) {
+
+        nflag = IDA_RES_RECVR;
+
+      } else {
 
-      /* Nonlinear system solution */
-      nflag = IDASensNls(IDA_mem);
+        /* Compute predicted values for yyS and ypS */
+        IDASensPredict(IDA_mem, IDA_mem->ida_yySpredict, IDA_mem->ida_ypSpredict);
+
+        /* Nonlinear system solution */
+        nflag = IDASensNls(IDA_mem);
+
+      }
 
       /* If NLS was successful, perform error test */
       if (IDA_mem->ida_errconS && (nflag == IDA_SUCCESS))
-- 
2.43.0


From 00ff9b03a99f46612d7af9dc19e30e02779f5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 63/65] fix: IDAS counts error test failures of sensitivities
 as those of quadratures

---
 lib/sundials-6.1.1/src/idas/idas.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/idas/idas.c b/lib/sundials-6.1.1/src/idas/idas.c
index 1e1bbfb..bb78a42 100644
--- a/lib/sundials-6.1.1/src/idas/idas.c
+++ b/lib/sundials-6.1.1/src/idas/idas.c
@@ -5465,7 +5465,7 @@ static int IDAStep(IDAMem IDA_mem)
         IDARestore(IDA_mem, saved_t);
         kflag = IDAHandleNFlag(IDA_mem, nflag, err_k, err_km1,
                                &(IDA_mem->ida_ncfnQ), &ncf,
-                               &(IDA_mem->ida_netfQ), &nef);
+                               &(IDA_mem->ida_netfS), &nef);
 
         /* exit on nonrecoverable failure */
         if (kflag != PREDICT_AGAIN) return(kflag);
@@ -5494,7 +5494,7 @@ static int IDAStep(IDAMem IDA_mem)
         IDARestore(IDA_mem, saved_t);
         kflag = IDAHandleNFlag(IDA_mem, nflag, err_k, err_km1,
                                &(IDA_mem->ida_ncfnQ), &ncf,
-                               &(IDA_mem->ida_netfQ), &nef);
+                               &(IDA_mem->ida_netfQS), &nef);
 
         /* exit on nonrecoverable failure */
         if (kflag != PREDICT_AGAIN) return(kflag);
-- 
2.43.0


From 0b6c87330d7dcfe1982fa619a07c5abb7046d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 64/65] fix: IDAS leaves a parameter perturbed when a
 difference quotient for sensitivities fails

---
 lib/sundials-6.1.1/src/idas/idas.c | 35 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/lib/sundials-6.1.1/src/idas/idas.c b/lib/sundials-6.1.1/src/idas/idas.c
index bb78a42..21dd35a 100644
--- a/lib/sundials-6.1.1/src/idas/idas.c
+++ b/lib/sundials-6.1.1/src/idas/idas.c
@@ -7575,7 +7575,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
   IDAMem IDA_mem;
   int method;
   int which;
-  int retval;
+  int retval = 0;
   realtype psave, pbari;
   realtype del , rdel;
   realtype Delp, rDelp, r2Delp;
@@ -7629,7 +7629,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in resvalS */
     retval = IDA_mem->ida_res(t, ytemp, yptemp, resvalS, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Backward perturb y, y' and parameter */
     N_VLinearSum(-Del, yyS, ONE, yy, ytemp);
@@ -7639,7 +7639,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in restemp */
     retval = IDA_mem->ida_res(t, ytemp, yptemp, restemp, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Estimate the residual for the i-th sensitivity equation */
     N_VLinearSum(r2Del, resvalS, -r2Del, restemp, resvalS);
@@ -7658,7 +7658,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in resvalS */
     retval = IDA_mem->ida_res(t, ytemp, yptemp, resvalS, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Backward perturb y and y' */
     N_VLinearSum(-Dely, yyS, ONE, yy, ytemp);
@@ -7667,7 +7667,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in restemp */
     retval = IDA_mem->ida_res(t, ytemp, yptemp, restemp, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Save the first difference quotient in resvalS */
     N_VLinearSum(r2Dely, resvalS, -r2Dely, restemp, resvalS);
@@ -7678,7 +7678,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in ytemp */
     retval = IDA_mem->ida_res(t, yy, yp, ytemp, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Backward perturb parameter */
     IDA_mem->ida_p[which] = psave - Delp;
@@ -7686,7 +7686,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in yptemp */
     retval = IDA_mem->ida_res(t, yy, yp, yptemp, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Save the second difference quotient in restemp */
     N_VLinearSum(r2Delp, ytemp, -r2Delp, yptemp, restemp);
@@ -7709,7 +7709,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in resvalS */
     retval = IDA_mem->ida_res(t, ytemp, yptemp, resvalS, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Estimate the residual for the i-th sensitivity equation */
     N_VLinearSum(rDel, resvalS, -rDel, resval, resvalS);
@@ -7725,7 +7725,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in resvalS */
     retval = IDA_mem->ida_res(t, ytemp, yptemp, resvalS, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Save the first difference quotient in resvalS */
     N_VLinearSum(rDely, resvalS, -rDely, resval, resvalS);
@@ -7736,7 +7736,7 @@ static int IDASensRes1DQ(int Ns, realtype t,
     /* Save residual in restemp */
     retval = IDA_mem->ida_res(t, yy, yp, restemp, IDA_mem->ida_user_data);
     IDA_mem->ida_nreS++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     /* Save the second difference quotient in restemp */
     N_VLinearSum(rDelp, restemp, -rDelp, resval, restemp);
@@ -7748,10 +7748,10 @@ static int IDASensRes1DQ(int Ns, realtype t,
 
   }
 
-  /* Restore original value of parameter */
+  /* Restore original value of parameter, also after a failed call */
   IDA_mem->ida_p[which] = psave;
 
-  return(0);
+  return(retval);
 
 }
 
@@ -7793,7 +7793,7 @@ static int IDAQuadSensRhs1InternalDQ(IDAMem IDA_mem, int is, realtype t,
                                     N_Vector resvalQ, N_Vector resvalQS,
                                     N_Vector yytmp, N_Vector yptmp, N_Vector tmpQS)
 {
-  int retval, method;
+  int retval = 0, method;
   int nfel = 0, which;
   realtype psave, pbari;
   realtype del , rdel;
@@ -7831,7 +7831,7 @@ static int IDAQuadSensRhs1InternalDQ(IDAMem IDA_mem, int is, realtype t,
 
     retval = IDA_mem->ida_rhsQ(t, yytmp, yptmp, resvalQS, IDA_mem->ida_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(-Del, yyS, ONE, yy, yytmp);
     N_VLinearSum(-Del, ypS, ONE, yp, yptmp);
@@ -7840,7 +7840,7 @@ static int IDAQuadSensRhs1InternalDQ(IDAMem IDA_mem, int is, realtype t,
 
     retval = IDA_mem->ida_rhsQ(t, yytmp, yptmp, tmpQS, IDA_mem->ida_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(r2Del, resvalQS, -r2Del, tmpQS, resvalQS);
 
@@ -7857,18 +7857,19 @@ static int IDAQuadSensRhs1InternalDQ(IDAMem IDA_mem, int is, realtype t,
 
     retval = IDA_mem->ida_rhsQ(t, yytmp, yptmp, resvalQS, IDA_mem->ida_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) break;
 
     N_VLinearSum(rdel, resvalQS, -rdel, resvalQ, resvalQS);
 
     break;
   }
 
+  /* Restore original value of parameter, also after a failed call */
   IDA_mem->ida_p[which] = psave;
   /* Increment counter nrQeS */
   IDA_mem->ida_nrQeS += nfel;
 
-  return(0);
+  return(retval);
 }
 
 
-- 
2.43.0


From 2267874b9ccbbacac6a81ed2f73ded8248e89beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:51 +0000
Subject: [PATCH 65/65] fix: IDAS difference quotients of quadrature
 sensitivities use a vector of another length

---
 lib/sundials-6.1.1/src/idas/idas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/idas/idas.c b/lib/sundials-6.1.1/src/idas/idas.c
index 21dd35a..60b05e6 100644
--- a/lib/sundials-6.1.1/src/idas/idas.c
+++ b/lib/sundials-6.1.1/src/idas/idas.c
@@ -7780,7 +7780,7 @@ static int IDAQuadSensRhsInternalDQ(int Ns, realtype t,
     retval = IDAQuadSensRhs1InternalDQ(IDA_mem, is, t,
                                       yy, yp, yyS[is], ypS[is],
                                       rrQ, resvalQS[is],
-                                      yytmp, yptmp, tmpQS);
+                                      yytmp, yptmp, IDA_mem->ida_ypQ);
     if (retval!=0) return(retval);
   }
 
-- 
2.43.0

