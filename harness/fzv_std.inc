    ! written by tools/mkstd.py: body of the right-hand side of standard problem SP
    select case (SP)
    case (1)      ! lotka
       fy(1) = p(1)*y(1) - p(2)*y(1)*y(2)
       fy(2) = p(3)*y(1)*y(2) - p(4)*y(2)
    case (2)      ! vdp5
       fy(1) = y(2)
       fy(2) = p(1)*(1.0d0 - y(1)*y(1))*y(2) - y(1)
    case (3)      ! vdp200
       fy(1) = y(2)
       fy(2) = p(1)*(1.0d0 - y(1)*y(1))*y(2) - y(1)
    case (4)      ! rober
       fy(1) = -p(1)*y(1) + p(2)*y(2)*y(3)
       fy(2) = p(1)*y(1) - p(2)*y(2)*y(3) - p(3)*y(2)*y(2)
       fy(3) = p(3)*y(2)*y(2)
    case (5)      ! hires
       fy(1) = -p(1)*y(1) + 0.43d0*y(2) + 8.32d0*y(3) + 0.0007d0
       fy(2) = p(1)*y(1) - 8.75d0*y(2)
       fy(3) = -10.03d0*y(3) + 0.43d0*y(4) + 0.035d0*y(5)
       fy(4) = 8.32d0*y(2) + p(1)*y(3) - 1.12d0*y(4)
       fy(5) = -1.745d0*y(5) + 0.43d0*y(6) + 0.43d0*y(7)
       fy(6) = -p(2)*y(6)*y(8) + 0.69d0*y(4) + p(1)*y(5) - 0.43d0*y(6) + 0.69d0*y(7)
       fy(7) = p(2)*y(6)*y(8) - 1.81d0*y(7)
       fy(8) = -p(2)*y(6)*y(8) + 1.81d0*y(7)
    case (6)      ! brus
       fy(1) = p(1) + y(1)*y(1)*y(2) - (p(2) + 1.0d0)*y(1)
       fy(2) = p(2)*y(1) - y(1)*y(1)*y(2)
    case (7)      ! pend
       fy(1) = y(2)
       fy(2) = -p(1)*y(2) - p(2)*sin(y(1)) + p(3)*cos(p(4)*t)
    case (8)      ! nagumo
       fy(1) = p(1)*(y(1) - y(1)*y(1)*y(1)/3.0d0 - y(2) + p(2))
       fy(2) = (y(1) + p(3) - p(4)*y(2))/p(1)
    case (9)      ! kepler
       fy(1) = y(3)
       fy(2) = y(4)
       fy(3) = -p(1)*y(1)/(y(1)*y(1) + y(2)*y(2))**1.5d0
       fy(4) = -p(1)*y(2)/(y(1)*y(1) + y(2)*y(2))**1.5d0
    case (10)      ! seir
       fy(1) = -p(1)*(1.0d0 + p(4)*cos(0.5d0*t))*y(1)*y(3)
       fy(2) = p(1)*(1.0d0 + p(4)*cos(0.5d0*t))*y(1)*y(3) - p(2)*y(2)
       fy(3) = p(2)*y(2) - p(3)*y(3)
    case (11)      ! fisher
       fy(1) = (1.0d0 - 2.0d0*y(1) + y(2))*p(1)*289.0d0 + p(2)*y(1)*(1.0d0 - y(1))
       fy(2) = (y(1) - 2.0d0*y(2) + y(3))*p(1)*289.0d0 + p(2)*y(2)*(1.0d0 - y(2))
       fy(3) = (y(2) - 2.0d0*y(3) + y(4))*p(1)*289.0d0 + p(2)*y(3)*(1.0d0 - y(3))
       fy(4) = (y(3) - 2.0d0*y(4) + y(5))*p(1)*289.0d0 + p(2)*y(4)*(1.0d0 - y(4))
       fy(5) = (y(4) - 2.0d0*y(5) + y(6))*p(1)*289.0d0 + p(2)*y(5)*(1.0d0 - y(5))
       fy(6) = (y(5) - 2.0d0*y(6) + y(7))*p(1)*289.0d0 + p(2)*y(6)*(1.0d0 - y(6))
       fy(7) = (y(6) - 2.0d0*y(7) + y(8))*p(1)*289.0d0 + p(2)*y(7)*(1.0d0 - y(7))
       fy(8) = (y(7) - 2.0d0*y(8) + y(9))*p(1)*289.0d0 + p(2)*y(8)*(1.0d0 - y(8))
       fy(9) = (y(8) - 2.0d0*y(9) + y(10))*p(1)*289.0d0 + p(2)*y(9)*(1.0d0 - y(9))
       fy(10) = (y(9) - 2.0d0*y(10) + y(11))*p(1)*289.0d0 + p(2)*y(10)*(1.0d0 - y(10))
       fy(11) = (y(10) - 2.0d0*y(11) + y(12))*p(1)*289.0d0 + p(2)*y(11)*(1.0d0 - y(11))
       fy(12) = (y(11) - 2.0d0*y(12) + y(13))*p(1)*289.0d0 + p(2)*y(12)*(1.0d0 - y(12))
       fy(13) = (y(12) - 2.0d0*y(13) + y(14))*p(1)*289.0d0 + p(2)*y(13)*(1.0d0 - y(13))
       fy(14) = (y(13) - 2.0d0*y(14) + y(15))*p(1)*289.0d0 + p(2)*y(14)*(1.0d0 - y(14))
       fy(15) = (y(14) - 2.0d0*y(15) + y(16))*p(1)*289.0d0 + p(2)*y(15)*(1.0d0 - y(15))
       fy(16) = (y(15) - 2.0d0*y(16) + 0.0d0)*p(1)*289.0d0 + p(2)*y(16)*(1.0d0 - y(16))
    case (12)      ! bursts
       fy(1) = p(1)*(exp(-((t - 1.0d0)*30.0d0)**2) + exp(-((t - 2.0d0)*60.0d0)**2) + exp(-((t - 2.5d0)*15.0d0)**2) + &
            exp(-((t - 4.0d0)*40.0d0)**2) + exp(-((t - 6.0d0)*10.0d0)**2)) - p(2)*y(1)
       fy(2) = -p(3)*y(1)*y(2) + p(4)*(1.0d0 - y(2))
    case (13)      ! sburst
       fy(1) = -p(1)*(y(1) - y(2)*y(2))
       fy(2) = p(2)*(exp(-((t - 1.0d0)*30.0d0)**2) + exp(-((t - 2.0d0)*60.0d0)**2) + exp(-((t - 2.5d0)*15.0d0)**2) + &
            exp(-((t - 4.0d0)*40.0d0)**2) + exp(-((t - 6.0d0)*10.0d0)**2)) - p(3)*y(2)
       fy(3) = -p(1)*0.1d0*(y(3)*y(3)*y(3) - y(1)*y(1)*y(1) - 1.0d0)
    case (14)      ! lorenz
       fy(1) = p(1)*(y(2) - y(1))
       fy(2) = y(1)*(p(2) - y(3)) - y(2)
       fy(3) = y(1)*y(2) - p(3)*y(3)
    case (15)      ! back
       fy(1) = -p(1)*y(2)*y(3)
       fy(2) = p(1)*y(1)*y(3)
       fy(3) = -p(2)*y(1)*y(2)
    case (16)      ! oreg
       fy(1) = p(1)*(y(2) + y(1)*(1.0d0 - p(2)*y(1) - y(2)))
       fy(2) = (y(3) - (1.0d0 + y(1))*y(2))/p(1)
       fy(3) = p(3)*(y(1) - y(3))
    case (17)      ! hill
       fy(1) = p(1)/(1.0d0 + (y(3)/p(2))**4.0d0) - y(1)
       fy(2) = p(1)/(1.0d0 + (y(1)/p(2))**4.0d0) - y(2)
       fy(3) = p(1)/(1.0d0 + (y(2)/p(2))**4.0d0) - y(3)
    end select
