#!/usr/bin/env python3
"""Writes fzv_elem_gen.F90: every documented elementwise operation, applied to arrays of rank 1-3."""
import sys
UN = ['sin','cos','tan','asin','acos','atan','sinh','cosh','tanh','asinh','acosh','atanh','sqrt','inv','square','inv_square',
      'inv_sqrt','exp','log','logit','inv_logit','erf','erfc','log_gamma','abs','-','+']
BIN = ['+','-','*','/','**','hypot']
REL = ['==','/=','<','<=','>','>=']
SEC = {1: '(l(1):u(1):st(1))', 2: '(l(1):u(1):st(1), l(2):u(2):st(2))',
       3: '(l(1):u(1):st(1), l(2):u(2):st(2), l(3):u(3):st(3))'}
COL = {1: '(:)', 2: '(:, :)', 3: '(:, :, :)'}
o = []
w = o.append
w("""module fzv_elem_gen
  use fazang
  implicit none
  integer :: l(3), u(3), st(3), n            ! section of the parents, and its number of elements
  type(var), allocatable :: a1(:), a2(:, :), a3(:, :, :), b1(:), b2(:, :), b3(:, :, :)
  real(8), allocatable :: x1(:), x2(:, :), x3(:, :, :), y1(:), y2(:, :), y3(:, :, :)
  integer, allocatable :: perm(:)              ! a permutation of the elements for vector subscripts
  type(var) :: va, vb
  real(8) :: xa, xb
contains""")
def ap(f, x):
    return f + x if f in '+-' else '%s(%s)' % (f, x)
def bp(f, x, y):
    return 'hypot(%s, %s)' % (x, y) if f == 'hypot' else '%s %s %s' % (x, f, y)
for r in (1, 2, 3):
    w("""  subroutine unary%d(op, rf, how)
    integer, intent(in) :: op, how
    type(var), allocatable, intent(out) :: rf(:)
    type(var), allocatable :: r%s
    select case (op)""" % (r, COL[r]))
    for i, f in enumerate(UN):
        if r == 1:
            w('    case (%d)' % (i + 1))
            w('       if (how == 1) then')
            w('          r = %s' % ap(f, 'a1(perm)'))
            w('       else if (how == 2) then')
            w('          r = %s' % ap(f, '[a1(l(1):u(1):st(1))]'))
            w('       else')
            w('          r = %s' % ap(f, 'a1' + SEC[1]))
            w('       end if')
        else:
            w('    case (%d); r = %s' % (i + 1, ap(f, 'a%d%s' % (r, SEC[r]))))
    w("""    end select
    rf = reshape(r, [size(r)])
  end subroutine unary%d""" % r)
forms = [  # operand expressions by rank
    ('vv', 'a%d', 'b%d'), ('vd', 'a%d', 'y%d'), ('dv', 'x%d', 'b%d'),
    ('vV', 'a%d', 'vb'), ('Vv', 'va', 'b%d'), ('vD', 'a%d', 'xb'), ('Dv', 'xa', 'b%d'), ('Vd', 'va', 'y%d'), ('dV', 'x%d', 'vb')]
def opd(t, r):
    return (t % r) + SEC[r] if '%' in t else t
for r in (1, 2, 3):
    for k, f in enumerate(BIN):
        w("""  subroutine binary%d_%d(form, rf)
    integer, intent(in) :: form
    type(var), allocatable, intent(out) :: rf(:)
    type(var), allocatable :: r%s
    select case (form)""" % (r, k + 1, COL[r]))
        for i, (nm, ta, tb) in enumerate(forms):
            w('    case (%d); r = %s' % (i + 1, bp(f, opd(ta, r), opd(tb, r))))
        w("""    end select
    rf = reshape(r, [size(r)])
  end subroutine binary%d_%d""" % (r, k + 1))
    w("""  subroutine rel%d(op, form, lf)
    integer, intent(in) :: op, form
    logical, allocatable, intent(out) :: lf(:)
    logical, allocatable :: r%s
    select case (op * 10 + form)""" % (r, COL[r]))
    for k, f in enumerate(REL):
        for i, (nm, ta, tb) in enumerate(forms):
            w('    case (%d); r = %s' % ((k + 1) * 10 + i + 1, '%s %s %s' % (opd(ta, r), f, opd(tb, r))))
    w("""    end select
    lf = reshape(r, [size(r)])
  end subroutine rel%d""" % r)
w("""  function scalar1(op, v) result(s)
    integer, intent(in) :: op
    type(var), intent(in) :: v
    type(var) :: s
    select case (op)""")
for i, f in enumerate(UN):
    w('    case (%d); s = %s' % (i + 1, ap(f, 'v')))
w("""    end select
  end function scalar1
  function scalar2(op, form, v, w, d, e) result(s)    ! form 1 vv 2 vd 3 dv
    integer, intent(in) :: op, form
    type(var), intent(in) :: v, w
    real(8), intent(in) :: d, e
    type(var) :: s
    select case (op * 10 + form)""")
for k, f in enumerate(BIN):
    w('    case (%d1); s = %s' % (k + 1, bp(f, 'v', 'w')))
    w('    case (%d2); s = %s' % (k + 1, bp(f, 'v', 'e')))
    w('    case (%d3); s = %s' % (k + 1, bp(f, 'd', 'w')))
w("""    end select
  end function scalar2
  logical function srel(op, form, v, w, d, e)
    integer, intent(in) :: op, form
    type(var), intent(in) :: v, w
    real(8), intent(in) :: d, e
    srel = .false.
    select case (op * 10 + form)""")
for k, f in enumerate(REL):
    w('    case (%d1); srel = v %s w' % (k + 1, f))
    w('    case (%d2); srel = v %s e' % (k + 1, f))
    w('    case (%d3); srel = d %s w' % (k + 1, f))
w("""    end select
  end function srel
  logical function drel(op, d, e)
    integer, intent(in) :: op
    real(8), intent(in) :: d, e
    drel = .false.
    select case (op)""")
for k, f in enumerate(REL):
    w('    case (%d); drel = d %s e' % (k + 1, f))
w("""    end select
  end function drel
end module fzv_elem_gen""")
open(sys.argv[1], 'w').write('\n'.join(o) + '\n')
