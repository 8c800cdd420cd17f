    ! body of a right-hand side, the same text for real, var and complex arguments
    integer :: k, j, pt
    YT :: z(NEQ), g(NEQ)
    PT :: q(NEQ)
    do k = 1, NEQ
       if (mixed) then
          if (useloop) then
             z(k) = (HM(k, 1) / SCL(1)) * y(1)
             do j = 2, NEQ
                z(k) = z(k) + (HM(k, j) / SCL(j)) * y(j)
             end do
          else
             z(k) = dot_product(HM(:, k) / SCL(1:NEQ), y)
          end if
       else if (SCL(k) == 1.d0) then
          z(k) = y(k)
       else
          z(k) = y(k) * (1.d0 / SCL(k))
       end if
    end do
    do k = 1, NEQ
       if (.not. usesq(KIND_(k))) cycle
       q(k) = QCON(QOFF(k))
       if (NP > 0) then
          do j = 1, NP
             if (BM(k, j) /= 0.d0) q(k) = q(k) + BM(k, j) * P(j)
          end do
          if (CC(k) /= 0.d0) q(k) = q(k) + CC(k) * P(PA(k)) * P(PB(k))
       end if
    end do
    do k = 1, NEQ
       select case (KIND_(k))
       case (1);  g(k) = -(q(k) * z(k))
       case (2);  g(k) = q(k) * z(k) * (1.d0 - z(k))
       case (3);  g(k) = -(q(k) * z(k+1))
       case (4);  g(k) = q(k-1) * z(k-1)
       case (5);  g(k) = YQ(q(k) * cos(AK(k) * t))
       case (6);  g(k) = -(q(k) * z(k) * z(k))
       case (7);  g(k) = YQ(q(k))
       case (8);  g(k) = -((AK(k) * q(k)) * (z(k) - cos(t))) - sin(t)
       case (9);  g(k) = q(k) * z(k) * cos(AK(k) * t)
       case (10); g(k) = q(k) * (1.d0 - z(k) * z(k))
       case (11); g(k) = q(k) * exp(-z(k))
       case (12); g(k) = -((AK(k) * q(k)) * (z(k) * z(k) * z(k) - (2.d0 + cos(t))**3)) - sin(t)
       case (13); g(k) = -(AK(k) * q(k) * z(k)) - AK(k+1) * q(k) * z(k+1)
       case (14); g(k) = AK(k) * q(k-1) * z(k-1) - AK(k-1) * q(k-1) * z(k)
       case (15); g(k) = YQ(q(k) * (AK(k) / cosh(AK(k) * (t - TC))**2))
       case (16); g(k) = z(k+1)
       case (17); g(k) = -(q(k-1) * q(k-1) * z(k-1))
       case (18); g(k) = YCON(AK(k))
       case (30)
          j = mod(k, NEQ) + 1
          if (.not. usesq(KIND_(j))) q(j) = q(k)
          g(k) = q(k) * sin(z(k) + t) + z(k) * z(j) * q(j) + exp(-(z(j) * z(j)))
          g(k) = g(k) + sqrt(1.d0 + z(k) * z(k)) * atan(z(j)) - 0.3d0 * log(2.d0 + z(j) * z(j))
       end select
    end do
    do k = 1, NEQ
       if (mixed) then
          if (useloop) then
             fy(k) = (HM(k, 1) * SCL(k)) * g(1)
             do j = 2, NEQ
                fy(k) = fy(k) + (HM(k, j) * SCL(k)) * g(j)
             end do
          else
             fy(k) = dot_product(HM(:, k) * SCL(k), g)
          end if
       else if (SCL(k) == 1.d0) then
          if (KIND_(k) == 5) then
             fy(k) = q(k) * cos(AK(k) * t)       ! may be a number assigned to a variable
          else if (KIND_(k) == 7) then
             fy(k) = q(k)
          else
             fy(k) = g(k)
          end if
       else
          fy(k) = g(k) * SCL(k)
       end if
    end do
