    ! written by tools/mkstd.py: data of standard problem SP
    select case (SP)
    case (1)
       sname = 'lotka'; sn = 2; sm = 4; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       1.00000000000000000d+00, 5.00000000000000000d-01]
       sp_(1:4) = [ &
       1.50000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00, 3.00000000000000000d+00]
       sts(1:4) = [ &
       1.00000000000000000d+00, 4.00000000000000000d+00, 1.00000000000000000d+01, 2.00000000000000000d+01]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:2, 1) = [ &
       3.47051067752023856d+00, 1.73336745615484400d-01]
       ss(1:2, 1, 1) = [ &
       2.95803903670399571d+00, 3.13709773084466570d-01]
       ss(1:2, 2, 1) = [ &
       -1.64615995311116059d+00, 2.32152983465769847d-01]
       ss(1:2, 3, 1) = [ &
       3.27437095956838231d+00, 1.96414269441872125d-01]
       ss(1:2, 4, 1) = [ &
       -8.23079976555580517d-01, -5.72602538825995738d-02]
       ss(1:2, 5, 1) = [ &
       -5.12471640816241969d-01, 3.13709773084466625d-01]
       ss(1:2, 6, 1) = [ &
       3.42731389278115750d-01, -1.56504711248661332d-01]
       sy(1:2, 2) = [ &
       1.89520787280899916d+00, 2.08133239892442701d-01]
       ss(1:2, 1, 2) = [ &
       3.08713468360765475d+00, 3.22843241651607354d-02]
       ss(1:2, 2, 2) = [ &
       6.38778629231545603d-01, 2.62228289005083826d-01]
       ss(1:2, 3, 2) = [ &
       3.67797610997888302d+00, -2.04225071878633618d-01]
       ss(1:2, 4, 2) = [ &
       3.19389314615772746d-01, -7.70190953899009684d-02]
       ss(1:2, 5, 2) = [ &
       1.19192681079864760d+00, 3.22843241651597987d-02]
       ss(1:2, 6, 2) = [ &
       9.21714642373883564d-01, -1.89567826772338410d-01]
       sy(1:2, 3) = [ &
       7.58453804149995858d-01, 1.11462833746528744d+00]
       ss(1:2, 1, 3) = [ &
       1.17756246090271510d+00, -4.28121194657491877d+00]
       ss(1:2, 2, 3) = [ &
       8.85275857441615188d-01, -1.78272103694291206d+00]
       ss(1:2, 3, 3) = [ &
       6.76849582459045584d-01, -8.10447030346292152d+00]
       ss(1:2, 4, 3) = [ &
       4.42637928720806928d-01, -2.00598885593674181d+00]
       ss(1:2, 5, 3) = [ &
       4.19108656752707365d-01, -4.28121194657490722d+00]
       ss(1:2, 6, 3) = [ &
       3.48615025149556335d-01, -2.18033427953789527d+00]
       sy(1:2, 4) = [ &
       8.32460053895491825d-01, 2.57721411474685258d+00]
       ss(1:2, 1, 4) = [ &
       -2.28031309287421946d+00, -1.89901387935736992d+01]
       ss(1:2, 2, 4) = [ &
       -1.38357537285504217d+00, -1.34039242501942546d+01]
       ss(1:2, 3, 4) = [ &
       -6.40735712180811667d+00, -3.59912132014622728d+01]
       ss(1:2, 4, 4) = [ &
       -6.91787686427520532d-01, -9.27917623984399675d+00]
       ss(1:2, 5, 4) = [ &
       -3.11277314676970596d+00, -1.89901387935734469d+01]
       ss(1:2, 6, 4) = [ &
       -1.50638596149110460d+00, -9.82271867732081816d+00]
    case (2)
       sname = 'vdp5'; sn = 2; sm = 1; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       2.00000000000000000d+00, 0.00000000000000000d+00]
       sp_(1:1) = [ &
       5.00000000000000000d+00]
       sts(1:4) = [ &
       1.00000000000000000d+00, 6.00000000000000000d+00, 1.50000000000000000d+01, 2.10000000000000000d+01]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:2, 1) = [ &
       1.86943885339312899d+00, -1.48235875377137089d-01]
       ss(1:2, 1, 1) = [ &
       1.10677572353296183d+00, 1.51876389478051183d-01]
       ss(1:2, 2, 1) = [ &
       7.41179376885684471d-02, 1.01716691771370302d-02]
       ss(1:2, 3, 1) = [ &
       2.52643231006332535d-02, 3.24991135272757053d-02]
       sy(1:2, 2) = [ &
       -1.98295831865200123d+00, 1.33663697091187111d-01]
       ss(1:2, 1, 2) = [ &
       -9.97974288834679646d-01, -1.74456645102908037d-01]
       ss(1:2, 2, 2) = [ &
       -6.68318485455970251d-02, -1.16829263175756634d-02]
       ss(1:2, 3, 2) = [ &
       -9.73776752730155931d-02, -4.24663056747674461d-02]
       sy(1:2, 3) = [ &
       1.42056452723298454d+00, -2.57697879310916533d-01]
       ss(1:2, 1, 3) = [ &
       1.92405165677926515d+00, 8.12914511750349456d-01]
       ss(1:2, 2, 3) = [ &
       1.28848939655475919d-01, 5.44388569301276284d-02]
       ss(1:2, 3, 3) = [ &
       5.29826743945565393d-01, 2.69230577205054000d-01]
       sy(1:2, 4) = [ &
       -1.36837865923276558d+00, 2.81619060957922440d-01]
       ss(1:2, 1, 4) = [ &
       -2.10265455915138366d+00, -1.04432448639991882d+00]
       ss(1:2, 2, 4) = [ &
       -1.40809530478986061d-01, -6.99358056498969177d-02]
       ss(1:2, 3, 4) = [ &
       -7.90089138565335913d-01, -4.40260043061419026d-01]
    case (3)
       sname = 'vdp200'; sn = 2; sm = 1; sno = 5; sstiff = .true.; sloose = 4; stight = 9; ssens = 0
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       2.00000000000000000d+00, 0.00000000000000000d+00]
       sp_(1:1) = [ &
       2.00000000000000000d+02]
       sts(1:5) = [ &
       1.00000000000000000d+00, 5.00000000000000000d+01, 1.20000000000000000d+02, 2.00000000000000000d+02,  &
       3.00000000000000000d+02]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000002d-02]
       sy(1:2, 1) = [ &
       1.99666760965286638d+00, -3.34260321660823870d-03]
       ss(1:2, 1, 1) = [ &
       1.00277817946165815d+00, 2.80284346518304764d-03]
       ss(1:2, 2, 1) = [ &
       1.67130160830398686d-03, 4.67141875155238048d-06]
       ss(1:2, 3, 1) = [ &
       1.66571510784556641d-05, 1.67594177194392014d-05]
       sy(1:2, 2) = [ &
       1.81960579151529722d+00, -3.93686126042946862d-03]
       ss(1:2, 1, 2) = [ &
       1.18105509738972270d+00, 4.76661103121036895d-03]
       ss(1:2, 2, 2) = [ &
       1.96843063021450489d-03, 7.94437378653193934d-06]
       ss(1:2, 3, 2) = [ &
       9.84137214224449107d-04, 2.36558342373976474d-05]
       sy(1:2, 3) = [ &
       1.48459558123314861d+00, -6.16485809112372017d-03]
       ss(1:2, 1, 3) = [ &
       1.84945228992186661d+00, 2.04336867963697960d-02]
       ss(1:2, 2, 3) = [ &
       3.08242904556151357d-03, 3.40562392618941044d-05]
       ss(1:2, 3, 3) = [ &
       3.69870771161242553d-03, 7.16866611412535649d-05]
       sy(1:2, 4) = [ &
       -1.86560255862444202d+00, 3.76055078395552168d-03]
       ss(1:2, 1, 4) = [ &
       -1.12816210311441800d+00, -4.10753327156960623d-03]
       ss(1:2, 2, 4) = [ &
       -1.88027539472847022d-03, -6.84590780193719176d-06]
       ss(1:2, 3, 4) = [ &
       -3.74587582590690370d-03, -3.24408633661951606d-05]
       sy(1:2, 5) = [ &
       -1.35895976606108992d+00, 8.02341800893920792d-03]
       ss(1:2, 1, 5) = [ &
       -2.40701872016957052d+00, -4.77573566502364003d-02]
       ss(1:2, 2, 5) = [ &
       -4.01170901033772419d-03, -7.95958155116336183d-05]
       ss(1:2, 3, 5) = [ &
       -1.20035934207507779d-02, -2.78269488314078397d-04]
    case (4)
       sname = 'rober'; sn = 3; sm = 3; sno = 5; sstiff = .true.; sloose = 4; stight = 9; ssens = 1
       st0 = 0.00000000000000000d+00
       sy0(1:3) = [ &
       1.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       sp_(1:3) = [ &
       4.00000000000000008d-02, 1.00000000000000000d+04, 3.00000000000000000d+07]
       sts(1:5) = [ &
       4.00000000000000022d-01, 4.00000000000000000d+00, 4.00000000000000000d+01, 4.00000000000000000d+02,  &
       4.00000000000000000d+03]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000005d-04, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       9.85172113861005672d-01, 3.38639537897535007d-05, 1.47940221852046958d-02]
       ss(1:3, 1, 1) = [ &
       9.85651399013140694d-01, 1.58628694799200202d-05, 1.43327381173786045d-02]
       ss(1:3, 2, 1) = [ &
       1.25725306062865944d-01, -1.33568886430552962d-04, 8.74408262823564986d-01]
       ss(1:3, 3, 1) = [ &
       1.25813264558544052d-01, -1.33553601637401370d-04, 8.74320289043093890d-01]
       ss(1:3, 4, 1) = [ &
       -3.55952565981939972d-01, 3.90254405382070612d-04, 3.55562311576557821d-01]
       ss(1:3, 5, 1) = [ &
       9.54238142821436522d-08, -2.13096103017903806d-10, -9.52107181791257507d-08]
       ss(1:3, 6, 1) = [ &
       -1.58317663561845051d-11, -5.29004109321814182d-13, 1.63607704655063304d-11]
       sy(1:3, 2) = [ &
       9.05518678584254721d-01, 2.24047568756024832d-05, 9.44589166588705453d-02]
       ss(1:3, 1, 2) = [ &
       9.20332139460428578d-01, 8.28643042609979321d-06, 7.96595741091448012d-02]
       ss(1:3, 2, 2) = [ &
       5.43895726494862397d-01, -3.51485951330424051d-05, 4.56139422100271474d-01]
       ss(1:3, 3, 2) = [ &
       5.43934230711531796d-01, -3.51441523332026869d-05, 4.56100913440801781d-01]
       ss(1:3, 4, 2) = [ &
       -1.87608217376664954d+00, 1.79218059001038299d-04, 1.87590295570764742d+00]
       ss(1:3, 5, 2) = [ &
       2.96137712914537380d-06, -5.83046056623361982d-10, -2.96079408308875033d-06]
       ss(1:3, 6, 2) = [ &
       -4.93343680509288619d-10, -2.76262196108969040d-13, 4.93619942705397424d-10]
       sy(1:3, 3) = [ &
       7.15827068719405157d-01, 9.18553476455783036d-06, 2.84163745745830976d-01]
       ss(1:3, 1, 3) = [ &
       7.84484495786696212d-01, 3.41416412266107273d-06, 2.15512090049179900d-01]
       ss(1:3, 2, 3) = [ &
       7.21206418411113215d-01, 9.54856533788909690d-07, 2.78792626732354165d-01]
       ss(1:3, 3, 3) = [ &
       7.21212890879552093d-01, 9.55108086797605689d-07, 2.78786154012363563d-01]
       ss(1:3, 4, 3) = [ &
       -4.24755877170573459d+00, 4.59119624925394737d-05, 4.24751285974324766d+00]
       ss(1:3, 5, 3) = [ &
       1.37308079734462939d-05, -2.35719211384634104d-10, -1.37305722542348998d-05]
       ss(1:3, 6, 3) = [ &
       -2.28835508890568016d-09, -1.13805950935013664d-13, 2.28846889485660596d-09]
       sy(1:3, 4) = [ &
       4.50518668471101114d-01, 3.22290144167461952d-06, 5.49478108627453166d-01]
       ss(1:3, 1, 4) = [ &
       5.64210038620747811d-01, 1.49844194427385425d-06, 4.35788462937301224d-01]
       ss(1:3, 2, 4) = [ &
       5.56419817265666028d-01, 1.39951996890782378d-06, 4.43578783214364225d-01]
       ss(1:3, 3, 4) = [ &
       5.56420614097114519d-01, 1.39953008725198837d-06, 4.43577986372800381d-01]
       ss(1:3, 4, 4) = [ &
       -5.95837279577553147d+00, 3.54269728859950016d-06, 5.95836925307832832d+00]
       ss(1:3, 5, 4) = [ &
       2.27381536174705929d-05, -2.26013886700679382d-11, -2.27381310160818419d-05]
       ss(1:3, 6, 4) = [ &
       -3.78967220083520600d-09, -4.99481870233353222d-14, 3.78972214902218595d-09]
       sy(1:3, 5) = [ &
       1.83202257776707206d-01, 8.94237125277587248d-07, 8.16796847986159258d-01]
       ss(1:3, 1, 5) = [ &
       2.77246471902986014d-01, 5.62751876444171752d-07, 7.22752965345132559d-01]
       ss(1:3, 2, 5) = [ &
       2.76646730446013178d-01, 5.59181680710490615d-07, 7.23352710372303864d-01]
       ss(1:3, 3, 5) = [ &
       2.76646791791236746d-01, 5.59182045891936879d-07, 7.23352649026719474d-01]
       ss(1:3, 4, 5) = [ &
       -4.75007118104816151d+00, -5.99365171387678367d-06, 4.75007717469994528d+00]
       ss(1:3, 5, 5) = [ &
       1.88088615855750408d-05, 2.31268734393448845d-11, -1.88088847124483854d-05]
       ss(1:3, 6, 5) = [ &
       -3.13481339098241621d-09, -1.87584661075621709d-14, 3.13483214944846728d-09]
    case (5)
       sname = 'hires'; sn = 8; sm = 2; sno = 4; sstiff = .true.; sloose = 4; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:8) = [ &
       1.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00,  &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00, 5.70000000000000021d-03]
       sp_(1:2) = [ &
       1.70999999999999996d+00, 2.80000000000000000d+02]
       sts(1:4) = [ &
       5.00000000000000000d+00, 5.00000000000000000d+01, 2.00000000000000000d+02, 3.00000000000000000d+02]
       sscl(1:8) = [ &
       1.00000000000000000d+00, 1.00000000000000006d-01, 1.00000000000000006d-01, 1.00000000000000000d+00,  &
       1.00000000000000006d-01, 1.00000000000000006d-01, 1.00000000000000002d-02, 1.00000000000000002d-02]
       sy(1:8, 1) = [ &
       3.16516757044432648d-02, 6.48154953103129237d-03, 4.58345106473311524d-03, 8.97432327348518105d-02,  &
       1.62451453752766956d-01, 6.85043896144815978d-01, 5.64670034192062999d-03, 5.32996580793682534d-05]
       ss(1:8, 1, 1) = [ &
       3.10891899600877139d-02, 6.37170599177756813d-03, 4.55735795781546469d-03, 8.89157263307861906d-02,  &
       1.65161126970215177d-01, 7.03111289246381443d-01, 5.42090546898189125d-05, -5.42090546898189125d-05]
       ss(1:8, 2, 1) = [ &
       2.37647754977210607d-02, 4.85494977182431790d-03, 3.56331504991460549d-03, 6.62195460661129248d-02,  &
       1.72999464339712195d-01, 7.25524421979696021d-01, 5.59423624567143623d-05, -5.59423624567143623d-05]
       ss(1:8, 3, 1) = [ &
       3.08283973735812011d-02, 6.31773035430908871d-03, 4.52183682233115326d-03, 8.81073155626590637d-02,  &
       1.65408084913121256d-01, 7.03777310634684961d-01, 5.42605884531288817d-05, -5.42605884531288817d-05]
       ss(1:8, 4, 1) = [ &
       2.23054196580561373d-02, 4.55296446655928128d-03, 3.36426225739096989d-03, 6.17026622946435579d-02,  &
       1.74206618183729733d-01, 7.28548303653448581d-01, 5.61765116506303980d-05, -5.61765116506303980d-05]
       ss(1:8, 5, 1) = [ &
       5.63667288658233154d-03, 1.10247931702398948d-03, 1.09694411416089935d-03, 9.95907989218009979d-03,  &
       1.91862192525091235d-01, 7.78531937642089278d-01, 6.00421607606476651d-05, -6.00421607606476651d-05]
       ss(1:8, 6, 1) = [ &
       4.91123778191247893d-03, 9.54663899943650543d-04, 9.86114966609155088d-04, 7.99846889779546981d-03,  &
       1.85163513936833612d-01, 7.50789401917756671d-01, 5.79029415280998448d-05, -5.79029415280998448d-05]
       ss(1:8, 7, 1) = [ &
       -6.00826566976505987d-03, -1.10207612364859441d-03, -1.57016415259035591d-03, -6.18165794217897385d-03,  &
       -3.93238959815461586d-01, -2.89628326749208087d+00, 9.90426030339003227d-01, 9.57396966099887357d-03]
       ss(1:8, 8, 1) = [ &
       -1.02351744404628655d-02, -1.92378244764587346d-03, -2.41854314589414919d-03, -1.30730083541859693d-02,  &
       -5.52405833191935036d-01, -3.54166839467090444d+00, 9.90376256468215810d-01, 9.62374353178356914d-03]
       ss(1:8, 9, 1) = [ &
       -2.62513526837655914d-02, -1.60068382982026056d-03, -1.68341886966311236d-04, -1.08408996767480389d-02,  &
       9.13420386314744287d-02, 4.36697719047362098d-01, 3.36300048185529543d-05, -3.36300048185529543d-05]
       ss(1:8, 10, 1) = [ &
       -1.11937023737083590d-08, -2.15791324880864221d-09, -2.34457419220129941d-09, -1.70109467522010131d-08,  &
       -4.69133919851425549d-07, -2.15197145560362512d-06, 1.88465058924397984d-07, -1.88465058924397984d-07]
       sy(1:8, 2) = [ &
       5.41886947491897891d-03, 1.05940357495094210d-03, 9.72685085778276885d-04, 9.38303904796009350d-03,  &
       1.63366007353243775d-01, 6.55874834643807580d-01, 5.64437038019396323d-03, 5.56296198060270714d-05]
       ss(1:8, 1, 2) = [ &
       5.61519816485875345d-03, 1.09737578738655726d-03, 1.09733953191004912d-03, 9.82772851942495529d-03,  &
       1.93724076926935190d-01, 7.86072806458292694d-01, 6.60192772553394342d-05, -6.60192772553394342d-05]
       ss(1:8, 2, 2) = [ &
       5.60238296607357914d-03, 1.09487131852079576d-03, 1.09483514592053255d-03, 9.80529933614650816d-03,  &
       1.93281953228141373d-01, 7.84278804273877084d-01, 6.58686058078151678d-05, -6.58686058078151678d-05]
       ss(1:8, 3, 2) = [ &
       5.61381719984419686d-03, 1.09710590598077989d-03, 1.09706965942534462d-03, 9.82531155223062384d-03,  &
       1.93676433700139206d-01, 7.85879484876346290d-01, 6.60030409080023255d-05, -6.60030409080023255d-05]
       ss(1:8, 4, 2) = [ &
       5.58975931435268508d-03, 1.09240428363377765d-03, 1.09236819256571644d-03, 9.78320540088046045d-03,  &
       1.92846437840490936d-01, 7.82511616588450254d-01, 6.57201864084825906d-05, -6.57201864084825906d-05]
       ss(1:8, 5, 2) = [ &
       5.55327614741145652d-03, 1.08527439379740745d-03, 1.08523853859082762d-03, 9.71935249988191245d-03,  &
       1.91587770419809594d-01, 7.77404330759388973d-01, 6.52912448188507072d-05, -6.52912448188507072d-05]
       ss(1:8, 6, 2) = [ &
       5.34318032555917977d-03, 1.04421545675627801d-03, 1.04418095806085810d-03, 9.35164246743977121d-03,  &
       1.84339474280973220d-01, 7.47992971168724874d-01, 6.28210961413749452d-05, -6.28210961413749452d-05]
       ss(1:8, 7, 2) = [ &
       -1.77834224072372704d-01, -3.46681695515989180d-02, -3.52196020517402120d-02, -3.05310104504880830d-01,  &
       -6.36340711558488970d+00, -2.71194512733764910d+01, 9.87963001406229502d-01, 1.20369985937724393d-02]
       ss(1:8, 8, 2) = [ &
       -1.82427389017241065d-01, -3.55658098217428442d-02, -3.61172126657263309d-02, -3.13349068893360505d-01,  &
       -6.52187109389615127d+00, -2.77624494289402364d+01, 9.87908998426912044d-01, 1.20910015730868840d-02]
       ss(1:8, 9, 2) = [ &
       4.27569282244797469d-02, 8.95445979703664817d-03, 9.08925792510306522d-03, 7.98103885640404631d-02,  &
       1.62937058523239875d+00, 6.68581554196390648d+00, 5.61457711239027324d-04, -5.61457711239027324d-04]
       ss(1:8, 10, 2) = [ &
       -4.41248575535300592d-08, -8.60638027985519068d-09, -8.71499370979523154d-09, -7.60615294986684480d-08,  &
       -1.56722879085740957d-06, -6.61725373749907641d-06, 1.96178465929167658d-07, -1.96178465929167658d-07]
       sy(1:8, 3) = [ &
       2.73651205813293073d-03, 5.35188152620781599d-04, 4.48509236242140418d-04, 4.68813719637435882d-03,  &
       7.08339578827027194d-02, 2.80462204558613315d-01, 5.57159613406749566d-03, 1.28403865932509071d-04]
       ss(1:8, 1, 3) = [ &
       5.52918117230664138d-03, 1.08058890093082143d-03, 1.08040253746572064d-03, 9.67877318877074545d-03,  &
       1.90694536696932954d-01, 7.73411914365230269d-01, 3.46040059645359873d-04, -3.46040059645359873d-04]
       ss(1:8, 2, 3) = [ &
       5.51656228630294232d-03, 1.07812274405645375d-03, 1.07793680591641437d-03, 9.65668396222550338d-03,  &
       1.90259327116143850d-01, 7.71646807294737003d-01, 3.45250315209556552d-04, -3.45250315209556552d-04]
       ss(1:8, 3, 3) = [ &
       5.52782136181134698d-03, 1.08032314799511660d-03, 1.08013683036302204d-03, 9.67639285487436294d-03,  &
       1.90647638535285685d-01, 7.73221706519698238d-01, 3.45954956826292285d-04, -3.45954956826292285d-04]
       ss(1:8, 4, 3) = [ &
       5.50413201164583633d-03, 1.07569344821473569d-03, 1.07550792904252982d-03, 9.63492489784851386d-03,  &
       1.89830622504577690d-01, 7.69908082840058294d-01, 3.44472374887163540d-04, -3.44472374887163540d-04]
       ss(1:8, 5, 3) = [ &
       5.46820772003661030d-03, 1.06867262730527403d-03, 1.06848831897699936d-03, 9.57203980517069321d-03,  &
       1.88591638660297434d-01, 7.64883057564188285d-01, 3.42224077422534226d-04, -3.42224077422534226d-04]
       ss(1:8, 6, 3) = [ &
       5.26133027260108563d-03, 1.02824178111209931d-03, 1.02806444567849972d-03, 9.20990302050010527d-03,  &
       1.81456694486401976d-01, 7.35945412427602252d-01, 3.29276792459541276d-04, -3.29276792459541276d-04]
       ss(1:8, 7, 3) = [ &
       -7.43664543944439260d-01, -1.45252401390456559d-01, -1.45772764075747074d-01, -1.29591634007290701d+00,  &
       -2.58732571192402148d+01, -1.06217202054466227d+02, 9.29952248288333672d-01, 7.00477517116687431d-02]
       ss(1:8, 8, 3) = [ &
       -7.48187348023475751d-01, -1.46136310189352470d-01, -1.46656520431557108d-01, -1.30383346079911755d+00,  &
       -2.60292429698653649d+01, -1.06849843751682840d+02, 9.29669191657611527d-01, 7.03308083423887648d-02]
       ss(1:8, 9, 3) = [ &
       1.42872013467924441d-01, 2.82256630844229008d-02, 2.82805973834132779d-02, 2.52668534812459766d-01,  &
       5.00226950031374962d+00, 2.03203130402355043d+01, 9.09140491134033737d-03, -9.09140491134033737d-03]
       ss(1:8, 10, 3) = [ &
       -2.08310180821839337d-07, -4.06727022385365620d-08, -4.09112827237620905d-08, -3.62025348390406676d-07,  &
       -7.28558254661456663d-06, -3.01356684221086025d-05, 4.34724622190968715d-07, -4.34724622190968715d-07]
       sy(1:8, 4) = [ &
       1.02110760816574806d-03, 1.99899448531836176d-04, 1.13541473469056349d-04, 1.68264151857457143d-03,  &
       1.17792822334209912d-02, 4.16391004322086700d-02, 4.93647312108086000d-03, 7.63526878919142701d-04]
       ss(1:8, 1, 4) = [ &
       4.83110267530894883d-03, 9.44902717638321666d-04, 9.39932739786098685d-04, 8.50527575827355470d-03,  &
       1.64662310439964488d-01, 6.54767501017997411d-01, 1.03340624326685362d-02, -1.03340624326685362d-02]
       ss(1:8, 2, 4) = [ &
       4.82007696787920166d-03, 9.42746228402955352d-04, 9.37787593203831147d-04, 8.48586472762017513d-03,  &
       1.64286512494519032d-01, 6.53273168277435423d-01, 1.03104776826433153d-02, -1.03104776826433153d-02]
       ss(1:8, 3, 4) = [ &
       4.82991454565339859d-03, 9.44670334471187935d-04, 9.39701578902669109d-04, 8.50318402662630923d-03,  &
       1.64621814473032285d-01, 6.54606471800086798d-01, 1.03315209412402267d-02, -1.03315209412402267d-02]
       ss(1:8, 4, 4) = [ &
       4.80921605895265943d-03, 9.40621971675156452d-04, 9.35674509593319853d-04, 8.46674382880801234d-03,  &
       1.63916331507378610d-01, 6.51801170956210707d-01, 1.02872454480033744d-02, -1.02872454480033744d-02]
       ss(1:8, 5, 4) = [ &
       4.77782733503614564d-03, 9.34482733384176456d-04, 9.29567562328459471d-04, 8.41148320394597207d-03,  &
       1.62846484694088744d-01, 6.47547004216182609d-01, 1.02201027987086530d-02, -1.02201027987086530d-02]
       ss(1:8, 6, 4) = [ &
       4.59706889022832958d-03, 8.99128662644195931d-04, 8.94399446126743552d-04, 8.09325349076173844d-03,  &
       1.56685551020352115d-01, 6.23048507051217060d-01, 9.83344799556754717d-03, -9.83344799556754717d-03]
       ss(1:8, 7, 4) = [ &
       -9.82664833065335364d-01, -1.92121846760936549d-01, -1.91592732545031230d-01, -1.72477171058436007d+00,  &
       -3.36923821444894855d+01, -1.35090597741900211d+02, -1.26552846920428497d+00, 2.26552846920429030d+00]
       ss(1:8, 8, 4) = [ &
       -9.86616617281696029d-01, -1.92894765884482344d-01, -1.92361586286126679d-01, -1.73172892444551874d+00,  &
       -3.38270739453389808d+01, -1.35626189727790546d+02, -1.27398160869582355d+00, 2.27398160869582311d+00]
       ss(1:8, 9, 4) = [ &
       1.46789054198506214d-01, 2.88252516031768553d-02, 2.86851397006133678d-02, 2.59465739131777784d-01,  &
       5.02684398829419798d+00, 1.99942634423059467d+01, 3.15554737231310889d-01, -3.15554737231310889d-01]
       ss(1:8, 10, 4) = [ &
       -5.01661248010740941d-07, -9.79321490655210996d-08, -9.86185977005857137d-08, -8.70565540818886480d-07,  &
       -1.75922766061463132d-05, -7.29737688895390816d-05, 1.20390701294457837d-06, -1.20390701294457837d-06]
    case (6)
       sname = 'brus'; sn = 2; sm = 2; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       1.50000000000000000d+00, 3.00000000000000000d+00]
       sp_(1:2) = [ &
       1.00000000000000000d+00, 3.00000000000000000d+00]
       sts(1:4) = [ &
       1.00000000000000000d+00, 5.00000000000000000d+00, 1.20000000000000000d+01, 2.00000000000000000d+01]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:2, 1) = [ &
       1.96873243686311405d+00, 1.38722426580754776d+00]
       ss(1:2, 1, 1) = [ &
       -7.80229967389234336d-02, -4.85391445789821907d-01]
       ss(1:2, 2, 1) = [ &
       6.05171864363638790d-01, -6.12835347724612345d-01]
       ss(1:2, 3, 1) = [ &
       8.80891637716605835d-01, -5.39548434938822652d-01]
       ss(1:2, 4, 1) = [ &
       -2.37097542890050250d-01, 7.16798409567735662d-01]
       sy(1:2, 2) = [ &
       4.26847668407535075d-01, 4.29484180586674835d+00]
       ss(1:2, 1, 2) = [ &
       8.04540837636498647d-03, 1.09447434145618624d-01]
       ss(1:2, 2, 2) = [ &
       -2.71313119805537059d-02, -1.36219735654553864d-01]
       ss(1:2, 3, 2) = [ &
       1.04949327270300197d+00, -3.83792055496290363d-01]
       ss(1:2, 4, 2) = [ &
       -2.05312741289414846d-01, 1.50571376778007027d+00]
       sy(1:2, 3) = [ &
       4.14584667889675573d-01, 4.21804445754929702d+00]
       ss(1:2, 1, 3) = [ &
       1.24215366069301090d-02, 9.66824142763257344d-02]
       ss(1:2, 2, 3) = [ &
       -1.99657802544369808d-02, -1.55360183329834062d-01]
       ss(1:2, 3, 3) = [ &
       1.62542295958080807d+00, 4.93004834360887045d+00]
       ss(1:2, 4, 3) = [ &
       -2.88494693911052036d-01, 7.15215828933081776d-01]
       sy(1:2, 4) = [ &
       4.98637071268346665d-01, 4.59678034945201031d+00]
       ss(1:2, 1, 4) = [ &
       2.76548894739690604d-02, 6.57820847404165659d-02]
       ss(1:2, 2, 4) = [ &
       -4.44418669163609004d-02, -1.05712899242078467d-01]
       ss(1:2, 3, 4) = [ &
       4.70632924235873507d+00, 5.80007365232701044d+00]
       ss(1:2, 4, 4) = [ &
       -7.29378071327887012d-01, 7.56904855971175627d-01]
    case (7)
       sname = 'pend'; sn = 2; sm = 4; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       5.00000000000000000d-01, 0.00000000000000000d+00]
       sp_(1:4) = [ &
       2.99999999999999989d-01, 1.19999999999999996d+00, 4.00000000000000022d-01, 6.99999999999999956d-01]
       sts(1:4) = [ &
       1.00000000000000000d+00, 5.00000000000000000d+00, 1.50000000000000000d+01, 3.00000000000000000d+01]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:2, 1) = [ &
       4.19833803731426980d-01, -1.54038072228871475d-01]
       ss(1:2, 1, 1) = [ &
       5.59199272991792729d-01, -7.67966093379830128d-01]
       ss(1:2, 2, 1) = [ &
       7.18535079501326335d-01, 3.37996939283382869d-01]
       ss(1:2, 3, 1) = [ &
       2.40074336261702943d-02, 6.61622987874187080d-02]
       ss(1:2, 4, 1) = [ &
       -1.93516719599546611d-01, -3.22289540843762601d-01]
       ss(1:2, 5, 1) = [ &
       3.96969904887829128d-01, 6.46611286703183130d-01]
       ss(1:2, 6, 1) = [ &
       -2.05372845543918096d-02, -7.80900445215327588d-02]
       sy(1:2, 2) = [ &
       -5.31101726832173382d-01, -3.46717552022654946d-02]
       ss(1:2, 1, 2) = [ &
       1.84454181748523266d-01, 4.14527611962138276d-01]
       ss(1:2, 2, 2) = [ &
       -4.06520115082985800d-01, 2.96097096367053836d-01]
       ss(1:2, 3, 2) = [ &
       2.79746695757007169d-01, -2.04460028525211890d-01]
       ss(1:2, 4, 2) = [ &
       6.91530045749288003d-01, 4.62288994016545829d-01]
       ss(1:2, 5, 2) = [ &
       -1.67723249560101051d+00, -6.93927080255565487d-01]
       ss(1:2, 6, 2) = [ &
       -8.21669854365604690d-01, 9.86157516526536937d-01]
       sy(1:2, 3) = [ &
       -4.14838699492624252d-01, 2.90415296119628630d-01]
       ss(1:2, 1, 3) = [ &
       -1.00002413486913674d-01, -1.28618723250526201d-02]
       ss(1:2, 2, 3) = [ &
       1.58306690630868954d-02, -1.09051213002570993d-01]
       ss(1:2, 3, 3) = [ &
       -2.92869864452096951d-01, -4.50549835687349631d-01]
       ss(1:2, 4, 3) = [ &
       8.85518319424418276d-01, -3.61330652336647240d-01]
       ss(1:2, 5, 3) = [ &
       -1.17726253052524132d+00, 8.23803699302370740d-01]
       ss(1:2, 6, 3) = [ &
       4.65808065561666673d+00, 5.32628878276669937d+00]
       sy(1:2, 4) = [ &
       -1.57482889294306816d-01, -3.93538441014900264d-01]
       ss(1:2, 1, 4) = [ &
       1.00323744735302690d-02, 2.93472591629727374d-03]
       ss(1:2, 2, 4) = [ &
       -1.97975696967308667d-03, 1.17220265561350252d-02]
       ss(1:2, 3, 4) = [ &
       5.95656515564827016d-01, 4.64351453512231033d-02]
       ss(1:2, 4, 4) = [ &
       -4.54537570076656225d-02, 6.74172869678476450d-01]
       ss(1:2, 5, 4) = [ &
       -4.01157349267483920d-01, -1.17390061600786555d+00]
       ss(1:2, 6, 4) = [ &
       -1.65069075555486116d+01, 2.18387179629288397d+00]
    case (8)
       sname = 'nagumo'; sn = 2; sm = 4; sno = 4; sstiff = .false.; sloose = 4; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       -1.00000000000000000d+00, 1.00000000000000000d+00]
       sp_(1:4) = [ &
       8.00000000000000000d+00, 5.00000000000000000d-01, 6.99999999999999956d-01, 8.00000000000000044d-01]
       sts(1:4) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+01, 2.50000000000000000d+01, 4.00000000000000000d+01]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:2, 1) = [ &
       -1.85813309234468882d+00, 7.69060986322509188d-01]
       ss(1:2, 1, 1) = [ &
       -4.50997171267119440d-03, 1.10535269592659125d-02]
       ss(1:2, 2, 1) = [ &
       -3.51651753597952199d-01, 8.61865334949248774d-01]
       ss(1:2, 3, 1) = [ &
       -9.48694495845520125d-03, 2.60657766998340749d-02]
       ss(1:2, 4, 1) = [ &
       3.87583525886002811d-01, 4.50294895187611649d-02]
       ss(1:2, 5, 1) = [ &
       -4.49147153600630289d-02, 1.16381469414986782d-01]
       ss(1:2, 6, 1) = [ &
       3.98880251168055172d-02, -1.02677108213407184d-01]
       sy(1:2, 2) = [ &
       -9.43521505741849564d-01, -1.93689986118165819d-01]
       ss(1:2, 1, 2) = [ &
       -1.20284695474836122d-02, 5.52055681791868810d-04]
       ss(1:2, 2, 2) = [ &
       -9.37883532238346196d-01, 4.30448720668311635d-02]
       ss(1:2, 3, 2) = [ &
       -2.73025793829521635d-01, 1.68541789456685895d-02]
       ss(1:2, 4, 2) = [ &
       3.57396158645361961d+00, 7.62545930128543215d-01]
       ss(1:2, 5, 2) = [ &
       -3.29509756776909413d+00, 2.43011497255782166d-01]
       ss(1:2, 6, 2) = [ &
       1.60971747031259993d-01, 9.37916281817613093d-03]
       sy(1:2, 3) = [ &
       -1.40925314477171715d+00, 1.23166715379268293d-02]
       ss(1:2, 1, 3) = [ &
       -4.52892208981144507d-03, 4.48220599291523913d-03]
       ss(1:2, 2, 3) = [ &
       -3.53129001994542502d-01, 3.49486455634305804d-01]
       ss(1:2, 3, 3) = [ &
       -2.32386750937520037d-01, 2.32784422148353071d-01]
       ss(1:2, 4, 3) = [ &
       1.53813472453967126d+00, -5.34379203841889527d-01]
       ss(1:2, 5, 3) = [ &
       -1.48125715318141271d+00, 1.48111593525948093d+00]
       ss(1:2, 6, 3) = [ &
       -7.04270763990173364d-03, 6.61905720022170577d-03]
       sy(1:2, 4) = [ &
       -1.76185832793194419d+00, 5.50003527876942178d-01]
       ss(1:2, 1, 4) = [ &
       -4.45157294575723120d-03, 9.36113248397067374d-03]
       ss(1:2, 2, 4) = [ &
       -3.47097936433390208d-01, 7.29905992209477161d-01]
       ss(1:2, 3, 4) = [ &
       -3.48713767754343262d-01, 7.36079044885132205d-01]
       ss(1:2, 4, 4) = [ &
       2.06335601822679626d+00, -3.34485256237827100d+00]
       ss(1:2, 5, 4) = [ &
       -2.14532260224174953d+00, 4.51868321271097351d+00]
       ss(1:2, 6, 4) = [ &
       -2.43670438472487844d-01, 5.08301898525144846d-01]
    case (9)
       sname = 'kepler'; sn = 4; sm = 1; sno = 4; sstiff = .false.; sloose = 5; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:4) = [ &
       4.00000000000000022d-01, 0.00000000000000000d+00, 0.00000000000000000d+00, 2.00000000000000000d+00]
       sp_(1:1) = [ &
       1.00000000000000000d+00]
       sts(1:4) = [ &
       1.00000000000000000d+00, 3.00000000000000000d+00, 6.00000000000000000d+00, 9.00000000000000000d+00]
       sscl(1:4) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:4, 1) = [ &
       -6.28948176826628957d-01, 7.99664730970040205d-01, -9.82515690938818853d-01, -2.27631700974313608d-02]
       ss(1:4, 1, 1) = [ &
       2.63190126642782030d+00, 7.33286131385471229d+00, -2.55836294594736824d+00, 1.14326963110190540d+01]
       ss(1:4, 2, 1) = [ &
       2.02191545779015103d+00, 2.59026650998100871d+00, 7.01529559385976942d-01, 3.08127745545836618d+00]
       ss(1:4, 3, 1) = [ &
       8.04215457043050419d-01, 8.32527390409515955d-01, 1.28924326828479763d-01, 1.10751333656108231d+00]
       ss(1:4, 4, 1) = [ &
       2.07935146989528641d-01, 2.09933503942569288d+00, -6.18679909707542608d-01, 3.42259177547389415d+00]
       ss(1:4, 5, 1) = [ &
       -6.99192992458938734d-01, -2.11071662447440911d+00, 4.26063102285068940d-01, -3.81367508181761306d+00]
       sy(1:4, 2) = [ &
       -1.59608300287015648d+00, 7.07385106686573700d-02, -5.53457573997284194d-02, -4.98774137759850023d-01]
       ss(1:4, 1, 2) = [ &
       -2.08574140643959716d+01, 2.84985945190158887d+01, -2.13933688875167043d+01, 7.20122327408415508d+00]
       ss(1:4, 2, 2) = [ &
       2.20949451253343782d-01, 5.98531366161237699d+00, -1.55637106558889715d+00, 2.07478694072668196d-01]
       ss(1:4, 3, 2) = [ &
       7.95591455849983809d-02, 1.99510423375755308d+00, -5.60661281997703820d-01, 6.91686175143978454d-02]
       ss(1:4, 4, 2) = [ &
       -6.99593853118688180d+00, 9.08421567701841148d+00, -6.82376146782186321d+00, 2.55304311981551901d+00]
       ss(1:4, 5, 2) = [ &
       6.91291989508732474d+00, -9.83237688365817064d+00, 7.38317491108355384d+00, -2.82844989567484850d+00]
       sy(1:4, 3) = [ &
       2.00364315476228044d-01, -4.79611150837696454d-01, 1.15339626656382133d+00, 1.23184754049035239d+00]
       ss(1:4, 1, 3) = [ &
       -1.34018434598874336d+02, -1.45733484957759885d+02, 1.63829991003815422d+02, -3.97140921828117882d+02]
       ss(1:4, 2, 3) = [ &
       -4.60518106403755734d-01, 8.07612072837992523d-01, 3.23031978636418193d+00, -2.52103493698437320d-01]
       ss(1:4, 3, 3) = [ &
       -3.31909196699593567d-01, 6.13402568294909301d-02, 1.26198772751800647d+00, -6.27118832021581141d-01]
       ss(1:4, 4, 3) = [ &
       -4.34271717559513775d+01, -4.67271549678524920d+01, 5.32676410164871754d+01, -1.27502873546390163d+02]
       ss(1:4, 5, 3) = [ &
       4.68873605556428572d+01, 5.04226975893236684d+01, -5.69712940559788379d+01, 1.38364654454839069d+02]
       sy(1:4, 4) = [ &
       -1.56465450178459675d+00, 2.10814333002978360d-01, -1.66911030228993285d-01, -4.88806162395031552d-01]
       ss(1:4, 1, 4) = [ &
       4.43211889125894132d+00, 8.38154285925227640d+01, -6.52242722696957173d+01, 1.50662551612501048d+01]
       ss(1:4, 2, 4) = [ &
       6.55845013874104876d-01, 5.86765220757429606d+00, -1.50656297904018444d+00, 6.24035439819906168d-01]
       ss(1:4, 3, 4) = [ &
       2.36576169276314696d-01, 1.95585769240715024d+00, -5.45715677005545796d-01, 2.08262603078475272d-01]
       ss(1:4, 4, 4) = [ &
       1.08420315019980884d+00, 2.67164739116687180d+01, -2.08056046097429999d+01, 5.05889872369559335d+00]
       ss(1:4, 5, 4) = [ &
       -1.83530278622901721d+00, -2.89161016424480763d+01, 2.25113356990452829d+01, -5.54436855809553997d+00]
    case (10)
       sname = 'seir'; sn = 3; sm = 4; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = -1.00000000000000000d+00
       sy0(1:3) = [ &
       9.89999999999999991d-01, 0.00000000000000000d+00, 1.00000000000000002d-02]
       sp_(1:4) = [ &
       1.50000000000000000d+00, 5.99999999999999978d-01, 4.00000000000000022d-01, 2.00000000000000011d-01]
       sts(1:4) = [ &
       2.00000000000000000d+00, 8.00000000000000000d+00, 2.00000000000000000d+01, 4.00000000000000000d+01]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       9.18122444847566332d-01, 3.84750813298648520d-02, 2.61875090806159734d-02]
       ss(1:3, 1, 1) = [ &
       8.70428680739267380d-01, 7.69478457102675956d-02, 3.82879034821187667d-02]
       ss(1:3, 2, 1) = [ &
       -3.08624483394543159d+00, 1.96025910316456131d+00, 1.35594936201829230d+00]
       ss(1:3, 3, 1) = [ &
       -6.83155271572565681d+00, 3.60064534806053826d+00, 2.53190681349642022d+00]
       ss(1:3, 4, 1) = [ &
       -8.31423853819654446d-02, 4.91398262692703189d-02, 2.46910556677638685d-02]
       ss(1:3, 5, 1) = [ &
       -6.41112864679704575d-02, 8.71023818174615147d-03, 3.92976776217445131d-02]
       ss(1:3, 6, 1) = [ &
       9.21406836847633443d-02, -5.82379864736337557d-02, -5.38331781583811994d-02]
       ss(1:3, 7, 1) = [ &
       -9.37706140916901992d-02, 5.39368475443982587d-02, 2.87376462937215110d-02]
       sy(1:3, 2) = [ &
       4.64676834183195220d-01, 1.45179397771469459d-01, 1.60951007718880129d-01]
       ss(1:3, 1, 2) = [ &
       -3.64168847288301345d-01, 3.65369764485334148d-01, 4.40202721116016105d-01]
       ss(1:3, 2, 2) = [ &
       -1.40388491124232875d+01, 1.75630426574824994d+00, 4.23597339102497905d+00]
       ss(1:3, 3, 2) = [ &
       -2.61384201055326884d+01, 2.90102339285196509d+00, 7.50571575883841735d+00]
       ss(1:3, 4, 2) = [ &
       -7.24392129369293869d-01, 1.63697935331687416d-01, 2.33271229182906825d-01]
       ss(1:3, 5, 2) = [ &
       -6.51070453106435520d-01, -6.12182140781193651d-02, 2.80312221304510722d-01]
       ss(1:3, 6, 2) = [ &
       1.15887475152425390d+00, -3.11986608362707085d-01, -6.44067818646908541d-01]
       ss(1:3, 7, 2) = [ &
       3.36487971979795020d-02, -1.21697101806471281d-01, -4.08823255793169388d-02]
       sy(1:3, 3) = [ &
       3.01252947043256017d-02, 7.13558862109154885d-03, 4.08295600990664087d-02]
       ss(1:3, 1, 3) = [ &
       -1.03064231402435091d-01, -2.67121727018172911d-02, -6.66566258702163267d-02]
       ss(1:3, 2, 3) = [ &
       -1.90158944964929688d-01, -3.05772306035565267d-01, -1.40684155562845570d+00]
       ss(1:3, 3, 3) = [ &
       -2.40834817206932339d-01, -5.47639213786772272d-01, -2.58454782032575681d+00]
       ss(1:3, 4, 3) = [ &
       -8.97114879765371076d-02, -2.60380211558389335d-02, -8.84433986092254543d-02]
       ss(1:3, 5, 3) = [ &
       -1.77493394346032209d-02, -5.16185707752889744d-02, -1.26965795530217446d-01]
       ss(1:3, 6, 3) = [ &
       2.90925411765292685d-01, 4.69787226852695430d-02, -6.39287445162751294d-02]
       ss(1:3, 7, 3) = [ &
       -3.00412029077523320d-03, -3.11420507266635177d-03, 2.90276243479509113d-03]
       sy(1:3, 4) = [ &
       2.46476931341208447d-02, 1.09501600367207345d-05, 7.59700571061165268d-05]
       ss(1:3, 1, 4) = [ &
       -7.27478190313926992d-02, -8.61839032647075621d-05, -4.22267781776618743d-04]
       ss(1:3, 2, 4) = [ &
       2.30653278762165161d-02, -4.00645821513601053d-04, -2.83174903958942001d-03]
       ss(1:3, 3, 4) = [ &
       1.27564615531810449d-01, -6.58506987107928274d-04, -4.86990307108278210d-03]
       ss(1:3, 4, 4) = [ &
       -6.35949252132543552d-02, -6.85715294265736442d-05, -3.61809461183864364d-04]
       ss(1:3, 5, 4) = [ &
       4.16881198453617537d-03, -9.66544116042727464d-05, -4.53417662255682923d-04]
       ss(1:3, 6, 4) = [ &
       2.48074085331617095d-01, 6.63750205368910089d-05, -3.36167021276701492d-04]
       ss(1:3, 7, 4) = [ &
       -2.43325068786946243d-03, 2.48390954603764527d-06, -7.16274177603817829d-06]
    case (11)
       sname = 'fisher'; sn = 16; sm = 2; sno = 4; sstiff = .true.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:16) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00,  &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00,  &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00,  &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       sp_(1:2) = [ &
       5.00000000000000000d-01, 4.00000000000000000d+00]
       sts(1:4) = [ &
       1.00000000000000002d-03, 5.00000000000000028d-02, 2.00000000000000011d-01, 1.00000000000000000d+00]
       sscl(1:16) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00,  &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00,  &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00,  &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:16, 1) = [ &
       1.26119548216516553d-01, 8.68148466916176392d-03, 4.07939661905762797d-04, 1.45174780452969378d-05,  &
       4.15358365470803286d-07, 9.93139510712560670d-09, 2.03904959317212923d-10, 3.66752611427634048d-12,  &
       5.86855153766409513d-14, 8.45662248139709701d-16, 1.10833209787791201d-17, 1.33201172656727451d-19,  &
       1.47810393214609489d-21, 1.52340015233350912d-23, 1.46567766986619342d-25, 1.32211573511970668d-27]
       ss(1:16, 1, 1) = [ &
       7.59493278416733308d-01, 1.09402750138523672d-01, 7.89141066414677378d-03, 3.79721926250899404d-04,  &
       1.37081905141115445d-05, 3.95974397724754828d-07, 9.53289714254387787d-09, 1.96730115818272418d-10,  &
       3.55262525830757448d-12, 5.70286835369289248d-14, 8.23935612087784712d-16, 1.08220839670907311d-17,  &
       1.30301115165782667d-19, 1.44820419933072470d-21, 1.49462453443215091d-23, 1.43960133875829502d-25]
       ss(1:16, 2, 1) = [ &
       1.09385700926158042d-01, 7.67765045276027958d-01, 1.09803306951759772d-01, 7.90587753928667474d-03,  &
       3.80139826190242346d-04, 1.37182512813915920d-05, 3.96182021621083643d-07, 9.53664649244439442d-09,  &
       1.96790302429943415d-10, 3.55349481867897818d-12, 5.70401048819257128d-14, 8.24073128443306683d-16,  &
       1.08236123630768095d-17, 1.30316889028504252d-19, 1.44835613152383898d-21, 1.49463173317762240d-23]
       ss(1:16, 3, 1) = [ &
       7.89009117372897403d-03, 1.09802053029193603d-01, 7.67797938164052507d-01, 1.09804478865711805d-01,  &
       7.90590955370237478d-03, 3.80140562382322842d-04, 1.37182659364827636d-05, 3.96182278714349520d-07,  &
       9.53665052244282687d-09, 1.96790359507695679d-10, 3.55349555582390486d-12, 5.70401136295177433d-14,  &
       8.24073224448619960d-16, 1.08236133429986272d-17, 1.30316897075834054d-19, 1.44821224340472623d-21]
       ss(1:16, 4, 1) = [ &
       3.79663298571852816d-04, 7.90578372747606679d-03, 1.09804424408498136d-01, 7.67798636759588926d-01,  &
       1.09804501389106718d-01, 7.90591009702702047d-03, 3.80140573550574767d-04, 1.37182661375084187d-05,  &
       3.96182281933148253d-07, 9.53665056885318481d-09, 1.96790360116273729d-10, 3.55349556314134651d-12,  &
       5.70401137107521907d-14, 8.24073225284878882d-16, 1.08236132070878511d-17, 1.30301950830533998d-19]
       ss(1:16, 5, 1) = [ &
       1.37062851034250812d-05, 3.80135719945672501d-04, 7.90590553699702450d-03, 1.09804499641323383d-01,  &
       7.67798656584187555d-01, 1.09804501924904513d-01, 7.90591010814038243d-03, 3.80140573750874504d-04,  &
       1.37182661407178282d-05, 3.96182281979447127d-07, 9.53665056946054382d-09, 1.96790360123578897d-10,  &
       3.55349556322246514d-12, 5.70401137114447853d-14, 8.24073210346613857d-16, 1.08221649949165043d-17]
       ss(1:16, 6, 1) = [ &
       3.95924882258526038d-07, 1.37181189488147886d-05, 3.80140386834734007d-04, 7.90590996920345103d-03,  &
       1.09804501879850885d-01, 7.67798657059948986d-01, 1.09804501935933357d-01, 7.90591010834067881d-03,  &
       3.80140573754084881d-04, 1.37182661407641406d-05, 3.96182281980054661d-07, 9.53665056946784948d-09,  &
       1.96790360123659780d-10, 3.55349556320835420d-12, 5.70401122632405691d-14, 8.23942908395855099d-16]
       ss(1:16, 7, 1) = [ &
       9.53181890263639577d-09, 3.96178601466704988d-07, 1.37182602644308699d-05, 3.80140567950199460d-04,  &
       7.90591010486449246d-03, 1.09804501934957874d-01, 7.67798657069745816d-01, 1.09804501936132157d-01,  &
       7.90591010834389325d-03, 3.80140573754131339d-04, 1.37182661407647522d-05, 3.96182281980062020d-07,  &
       9.53665056946791897d-09, 1.96790360122212498d-10, 3.55349543290641236d-12, 5.70292900982457463d-14]
       ss(1:16, 8, 1) = [ &
       1.96709852583919593d-10, 9.53657230148780571d-09, 3.96182131543482642d-07, 1.37182659555157294d-05,  &
       3.80140573606796179d-04, 7.90591010827005128d-03, 1.09804501936113880d-01, 7.67798657069922119d-01,  &
       1.09804501936135307d-01, 7.90591010834393836d-03, 3.80140573754131990d-04, 1.37182661407647657d-05,  &
       3.96182281980060696d-07, 9.53665056933761817d-09, 1.96790349300047554d-10, 3.55267148999801769d-12]
       ss(1:16, 9, 1) = [ &
       3.55228981174896756d-12, 1.96788912140965475d-10, 9.53664731644378945d-09, 3.96182277180598481d-07,  &
       1.37182661360056044d-05, 3.80140573750965740d-04, 7.90591010834257313d-03, 1.09804501936135043d-01,  &
       7.67798657069924340d-01, 1.09804501936135349d-01, 7.90591010834393836d-03, 3.80140573754131990d-04,  &
       1.37182661407646336d-05, 3.96182281969238580d-07, 9.53664974539471130d-09, 1.96733320009949257d-10]
       ss(1:16, 10, 1) = [ &
       5.70237168795343253d-14, 3.55347185384505745d-12, 1.96790299180683644d-10, 9.53665046467578206d-09,  &
       3.96182281855558076d-07, 1.37182661406614904d-05, 3.80140573754072955d-04, 7.90591010834391754d-03,  &
       1.09804501936135335d-01, 7.67798657069924340d-01, 1.09804501936135349d-01, 7.90591010834393662d-03,  &
       3.80140573754121148d-04, 1.37182661399406925d-05, 3.96182224939948556d-07, 9.53309707390471112d-09]
       ss(1:16, 11, 1) = [ &
       8.23869061184551549d-16, 5.70397654566857906d-14, 3.55349455546690880d-12, 1.96790358144692668d-10,  &
       9.53665056672754735d-09, 3.96182281977338491d-07, 1.37182661407628226d-05, 3.80140573754130960d-04,  &
       7.90591010834393662d-03, 1.09804501936135349d-01, 7.67798657069924340d-01, 1.09804501936135335d-01,  &
       7.90591010834311089d-03, 3.80140573697091788d-04, 1.37182625872691925d-05, 3.95985491619938322d-07]
       ss(1:16, 12, 1) = [ &
       1.08212692703737222d-17, 8.24068586772304072d-16, 5.70400987910114762d-14, 3.55349553027821364d-12,  &
       1.96790360071558129d-10, 9.53665056940757780d-09, 3.96182281980010616d-07, 1.37182661407647302d-05,  &
       3.80140573754131936d-04, 7.90591010834393662d-03, 1.09804501936135349d-01, 7.67798657069924007d-01,  &
       1.09804501936078353d-01, 7.90591010479044232d-03, 3.80140376963771832d-04, 1.37087294901952908d-05]
       ss(1:16, 13, 1) = [ &
       1.30291932702363033d-19, 1.08235568308292975d-17, 8.24073025250953462d-16, 5.70401132210162588d-14,  &
       3.55349556235090233d-12, 1.96790360122506406d-10, 9.53665056946676588d-09, 3.96182281980059743d-07,  &
       1.37182661407646268d-05, 3.80140573754120985d-04, 7.90591010834311089d-03, 1.09804501936078394d-01,  &
       7.67798657066371737d-01, 1.09804501739345056d-01, 7.90590057169337015d-03, 3.79744391472151843d-04]
       ss(1:16, 14, 1) = [ &
       1.44810828930405714d-21, 1.30316263744912336d-19, 1.08236109000641353d-17, 8.24073218683087645d-16,  &
       5.70401136983971774d-14, 3.55349556318894009d-12, 1.96790360122190371d-10, 9.53665056933759501d-09,  &
       3.96182281969238368d-07, 1.37182661399406874d-05, 3.80140573697091842d-04, 7.90591010479044058d-03,  &
       1.09804501739345056d-01, 7.67798647533274981d-01, 1.09804105753853465d-01, 7.89219184220317505d-03]
       ss(1:16, 15, 1) = [ &
       1.49453118558591146d-23, 1.44834960602506789d-21, 1.30316869493721186d-19, 1.08236131258221401d-17,  &
       8.24073210170012947d-16, 5.70401122629487031d-14, 3.55349543290603835d-12, 1.96790349300047089d-10,  &
       9.53664974539470799d-09, 3.96182224939948397d-07, 1.37182625872691925d-05, 3.80140376963771778d-04,  &
       7.90590057169337015d-03, 1.09804105753853423d-01, 7.67784938803783956d-01, 1.09424361362381234d-01]
       ss(1:16, 16, 1) = [ &
       1.43951627772142584d-25, 1.49462538707450592d-23, 1.44821195486433157d-21, 1.30301949910016449d-19,  &
       1.08221649927349911d-17, 8.23942908391890481d-16, 5.70292900982400918d-14, 3.55267148999800881d-12,  &
       1.96733320009949153d-10, 9.53309707390470781d-09, 3.95985491619938322d-07, 1.37087294901952908d-05,  &
       3.79744391472151789d-04, 7.89219184220316984d-03, 1.09424361362381262d-01, 7.59892746961581267d-01]
       ss(1:16, 17, 1) = [ &
       2.19054474433902607d-01, 3.15738276758712466d-02, 2.27825202600227990d-03, 1.09648733787437582d-04,  &
       3.95893989408337895d-06, 1.14369261377069412d-07, 2.75359221085703596d-09, 5.68291008906040235d-11,  &
       1.02628849503307042d-12, 1.64751672273005972d-14, 2.38036422299641825d-16, 3.12660176027503453d-18,  &
       3.76460715674013297d-20, 4.18417523519905868d-22, 4.31836772417468163d-24, 4.15945394774485096d-26]
       ss(1:16, 18, 1) = [ &
       5.48853786124763591d-05, 5.44588922627954916d-06, 2.95707008048115486d-07, 1.13628612190988602d-08,  &
       3.40895203720614143d-10, 8.41741510807697186d-12, 1.76881338964996706d-13, 3.23776369914726513d-15,  &
       5.25238521900164948d-17, 7.65247796469950474d-19, 1.01203490750142916d-20, 1.22548183910008595d-22,  &
       1.36860302626243004d-24, 1.41829522028276546d-26, 1.37105760975578746d-28, 1.24192186892296179d-30]
       sy(1:16, 2) = [ &
       8.02992771310790054d-01, 6.16554523124596687d-01, 4.50775374765183034d-01, 3.12844583658260789d-01,  &
       2.05678368917498189d-01, 1.27958331426559019d-01, 7.53087410966788717d-02, 4.19436430921906467d-02,  &
       2.21244589653833458d-02, 1.10646399534077063d-02, 5.25306452860636267d-03, 2.37077411075812747d-03,  &
       1.01841150307611927d-03, 4.16478958596098786d-04, 1.60713474487349115d-04, 5.35192794272140404d-05]
       ss(1:16, 1, 2) = [ &
       1.49480913828364606d-02, 2.72034608825414970d-02, 3.47016980489130850d-02, 3.67153819062035550d-02,  &
       3.39686624394968037d-02, 2.81593052052122560d-02, 2.12121694080510126d-02, 1.46582840893438576d-02,  &
       9.35825694267579042d-03, 5.55114223620164441d-03, 3.07393469115153613d-03, 1.59539918846036640d-03,  &
       7.78592674719974596d-04, 3.57691088160153373d-04, 1.53019389966719052d-04, 5.51563388886705964d-05]
       ss(1:16, 2, 2) = [ &
       2.71449222454714437d-02, 4.98304239846650496d-02, 6.44645501316094133d-02, 6.95059240493549474d-02,  &
       6.58104682928487561d-02, 5.60330359800372477d-02, 4.34815570662158979d-02, 3.10269308710440506d-02,  &
       2.04924095761740421d-02, 1.25928530147546482d-02, 7.23105745049533195d-03, 3.89407395841082299d-03,  &
       1.97229074626551317d-03, 9.39979142766160730d-04, 4.16256935111622081d-04, 1.54202430848903170d-04]
       ss(1:16, 3, 2) = [ &
       3.44258930163335863d-02, 6.40916611002767395d-02, 8.48085015161315486d-02, 9.42287146098962775d-02,  &
       9.25117149177913656d-02, 8.20805899639824588d-02, 6.66249541037336190d-02, 4.98639191798420991d-02,  &
       3.46050179596085472d-02, 2.23675733085247734d-02, 1.35152233286795036d-02, 7.65780066366056333d-03,  &
       4.07827704194010585d-03, 2.04069961219097672d-03, 9.45135124412891823d-04, 3.62468872803672123d-04]
       ss(1:16, 4, 2) = [ &
       3.61547910332522746d-02, 6.85992591917269218d-02, 9.35471177078603250d-02, 1.08114214984640036d-01,  &
       1.11216883859411253d-01, 1.03949383736399822d-01, 8.92119632906838711d-02, 7.07555723767840233d-02,  &
       5.20947113303067977d-02, 3.57326931606992762d-02, 2.29026438581237668d-02, 1.37523800759089265d-02,  &
       7.75042472638223009d-03, 4.09385101342979625d-03, 1.99110219130888867d-03, 7.92371639843177729d-04]
       ss(1:16, 5, 2) = [ &
       3.32019542154792791d-02, 6.44802529374453315d-02, 9.11908064919884076d-02, 1.10438910553883246d-01,  &
       1.19955945453643964d-01, 1.18989858096475706d-01, 1.08719920846098522d-01, 9.19480063957135718d-02,  &
       7.22230732293246969d-02, 5.28317901146562741d-02, 3.60784753934715596d-02, 2.30489780073610540d-02,  &
       1.37926660843635529d-02, 7.71148680943033356d-03, 3.94537760657568803d-03, 1.63010596285148796d-03]
       ss(1:16, 6, 2) = [ &
       2.73443504046376080d-02, 5.45554974203613027d-02, 8.04216152659870953d-02, 1.02620672520714037d-01,  &
       1.18306124887576872d-01, 1.25128115011317681d-01, 1.22214233042518633d-01, 1.10613241124450742d-01,  &
       9.29901898177992459d-02, 7.27583048899438228d-02, 5.30831297540490521d-02, 3.61717535734934620d-02,  &
       2.30347419594503187d-02, 1.36549301427003680d-02, 7.35482975320552596d-03, 3.15449840856156646d-03]
       ss(1:16, 7, 2) = [ &
       2.04914205853976190d-02, 4.21282406630467676d-02, 6.49814036165713288d-02, 8.76922315386470252d-02,  &
       1.07642087671422540d-01, 1.21705558136389877d-01, 1.27345774900409908d-01, 1.23585122468521991d-01,  &
       1.11405521320785308d-01, 9.34109237719348701d-02, 7.29495402260523645d-02, 5.31198396004063655d-02,  &
       3.60582616925529467d-02, 2.26887663080348433d-02, 1.28684029992843247d-02, 5.72622763110495168d-03]
       ss(1:16, 8, 2) = [ &
       1.41066520859077383d-02, 2.99581027954770145d-02, 4.84847689830678955d-02, 6.93539881864852076d-02,  &
       9.07888601289634639d-02, 1.09854791770454957d-01, 1.23249041709062701d-01, 1.28365349363248865d-01,  &
       1.24206934424749629d-01, 1.11740139739027453d-01, 9.35353227911805557d-02, 7.28835529769400331d-02,  &
       5.27971438453146216d-02, 3.52822022408635291d-02, 2.10644866058204497d-02, 9.71541048011724528d-03]
       ss(1:16, 9, 2) = [ &
       8.98344256229705040d-03, 1.97441637407711965d-02, 3.35880258292863693d-02, 5.09824194723550034d-02,  &
       7.12042909210952035d-02, 9.22096760118179121d-02, 1.10925204200382474d-01, 1.24004724776514544d-01,  &
       1.28843257941413797d-01, 1.24444914661411693d-01, 1.11748815504195576d-01, 9.32552706779388729d-02,  &
       7.21292266550390276d-02, 5.11829187791919826d-02, 3.21334446348614383d-02, 1.53397534506084197d-02]
       ss(1:16, 10, 2) = [ &
       5.32097440862361413d-03, 1.21197528581727665d-02, 2.16934257861431321d-02, 3.49477232230057250d-02,  &
       5.20533549394737310d-02, 7.20958954959681625d-02, 9.29332387163225165d-02, 1.11461024300460884d-01,  &
       1.24332565189533742d-01, 1.28934777936221850d-01, 1.24224665665075909d-01, 1.11031012981345448d-01,  &
       9.16606198402439565d-02, 6.89898732070119980d-02, 4.54622565029170755d-02, 2.24194976155858046d-02]
       ss(1:16, 11, 2) = [ &
       2.94450868756033525d-03, 6.95721795505675582d-03, 1.31072687237446701d-02, 2.24000893323418639d-02,  &
       3.55452959851709910d-02, 5.25908345254041676d-02, 7.25550813313421000d-02, 9.32654841072623336d-02,  &
       1.11598359876137310d-01, 1.24166567372994543d-01, 1.28261422301813893d-01, 1.22659564041154287d-01,  &
       1.07908524991283145d-01, 8.59484583806406216d-02, 5.92797399215890045d-02, 3.01239086128869439d-02]
       ss(1:16, 12, 2) = [ &
       1.52809745129446552d-03, 3.74750971842864036d-03, 7.42993952432320810d-03, 1.34565916612059567d-02,  &
       2.27156179370528073d-02, 3.58419025254086421d-02, 5.28330386106132949d-02, 7.26658078394526730d-02,  &
       9.31134511581074853d-02, 1.10955409593903487d-01, 1.22631553986059211d-01, 1.25161264787841675d-01,  &
       1.16961181734251907d-01, 9.82057586839391039d-02, 7.06135652504047417d-02, 3.68615559106296106d-02]
       ss(1:16, 13, 2) = [ &
       7.45989344297201388d-04, 1.89921733021394010d-03, 3.95988032871949936d-03, 7.58893336958847264d-03,  &
       1.36002397880372536d-02, 2.28322452515251142d-02, 3.58696393777722597d-02, 5.26419911930717244d-02,  &
       7.20173951369232068d-02, 9.15912825070402670d-02, 1.07873276736502391d-01, 1.16948732203620551d-01,  &
       1.15469076039640239d-01, 1.01632356342537714d-01, 7.57905724265127700d-02, 4.04908387989315194d-02]
       ss(1:16, 14, 2) = [ &
       3.42914824569767545d-04, 9.05905896980148178d-04, 1.98324922940279263d-03, 4.01173442797757903d-03,  &
       7.60845669397293076d-03, 1.35402981574228188d-02, 2.25753814709538925d-02, 3.51825872794895370d-02,  &
       5.11054850495968049d-02, 6.89370837789663321d-02, 8.59175164781679629d-02, 9.81909320931996371d-02,  &
       1.01627460297508326d-01, 9.30585896005511615d-02, 7.15120899277574690d-02, 3.89300256273524617d-02]
       ss(1:16, 15, 2) = [ &
       1.46803311921109910d-04, 4.01531779670778136d-04, 9.19375053571753098d-04, 1.95268463418004387d-03,  &
       3.89490993916425310d-03, 7.29589095465873420d-03, 1.28070727170036293d-02, 2.10076539321592884d-02,  &
       3.20866620637625805d-02, 4.54282245397943860d-02, 5.92580889359332827d-02, 7.06017885160637737d-02,  &
       7.57853941857949409d-02, 7.15105585468010646d-02, 5.61999110321463671d-02, 3.10220477143156245d-02]
       ss(1:16, 16, 2) = [ &
       5.29498270618820245d-05, 1.48861432594624724d-04, 3.52851597003996369d-04, 7.77553936949372092d-04,  &
       1.60995747926301639d-03, 3.13011625713576240d-03, 5.69992019924199338d-03, 9.69011757176586885d-03,  &
       1.53181300048764041d-02, 2.24031220606745775d-02, 3.01129992668410541d-02, 3.68552486831017559d-02,  &
       4.04877652830725882d-02, 3.89288502499730571d-02, 3.10217661590434443d-02, 1.72704362972222192d-02]
       ss(1:16, 17, 2) = [ &
       1.94000971225259278d-01, 3.55896437531733834d-01, 4.58312671780289893d-01, 4.89588139173928683d-01,  &
       4.57089020887913755d-01, 3.82047133923740845d-01, 2.89894832162947036d-01, 2.01600066112775450d-01,  &
       1.29412537129237754d-01, 7.71259943446044594d-02, 4.28802950187900517d-02, 2.23319884261633551d-02,  &
       1.09307672886024259d-02, 5.03436789496282313d-03, 2.15821255548532230d-03, 7.79116213913689116d-04]
       ss(1:16, 18, 2) = [ &
       2.74986865729415090d-03, 4.64919652790757310d-03, 5.39085812851774690d-03, 5.11864117137622414d-03,  &
       4.21976892024590339d-03, 3.10685328629157652d-03, 2.07762697280576775d-03, 1.27651737223495143d-03,  &
       7.26784461567061332d-04, 3.86001371103230847d-04, 1.92257658581706218d-04, 9.01912309101839766d-05,  &
       3.99871076476424905d-05, 1.67835411200802271d-05, 6.61470368952541845d-06, 2.23661037653343536d-06]
       sy(1:16, 3) = [ &
       9.17375181602646528d-01, 8.34808937426194775d-01, 7.52685718602681741d-01, 6.71652573108543760d-01,  &
       5.92543333751199386d-01, 5.16292005572910551d-01, 4.43839930260877591d-01, 3.76043484464868738d-01,  &
       3.13590126301147909d-01, 2.56930253449420831d-01, 2.06230602628455856d-01, 1.61352190367940657d-01,  &
       1.21852738499929544d-01, 8.70109112707488919d-02, 5.58681504972401294d-02, 2.72837515243494790d-02]
       ss(1:16, 1, 3) = [ &
       2.15678758511436350d-03, 4.26040875555826464d-03, 6.24301250209243885d-03, 8.02869213389981358d-03,  &
       9.54125322413547187d-03, 1.07123205632720878d-02, 1.14887380715158818d-02, 1.18381681099777539d-02,  &
       1.17520004396788925d-02, 1.12451244061748147d-02, 1.03527137484868519d-02, 9.12477799890588914d-03,  &
       7.61969103661223456d-03, 5.89809794606606461d-03, 4.01848360704607378d-03, 2.03530069219774040d-03]
       ss(1:16, 2, 3) = [ &
       4.26945231910979932d-03, 8.43781607282167306d-03, 1.23743680008591202d-02, 1.59312810300724569d-02,  &
       1.89584936775850019d-02, 2.13194448657273855d-02, 2.29056912078499271d-02, 2.36482835276530835d-02,  &
       2.35241212955776859d-02, 2.25563187222485202d-02, 2.08087485373804892d-02, 1.83761073049402944d-02,  &
       1.53717637854255060d-02, 1.19160702249918021d-02, 8.12763863129320821d-03, 4.11937422602048995d-03]
       ss(1:16, 3, 3) = [ &
       6.24108182743009828d-03, 1.23443308829229628d-02, 1.81272559523033491d-02, 2.33796198406096868d-02,  &
       2.78839598445578540d-02, 3.14378255785230584d-02, 3.38750479853666617d-02, 3.50830418680447356d-02,  &
       3.50134994214198539d-02, 3.36848736905082866d-02, 3.11765895993904342d-02, 2.76165906604811905d-02,  &
       2.31651975449253776d-02, 1.79989599227192119d-02, 1.22980539296918337d-02, 6.23987123345217439d-03]
       ss(1:16, 4, 3) = [ &
       7.97295386663174517d-03, 1.57871677361942665d-02, 2.32245524990238698d-02, 3.00268459215559114d-02,  &
       3.59197014206888016d-02, 4.06397285001286468d-02, 4.39614307492940323d-02, 4.57204143086994211d-02,  &
       4.58294472356012769d-02, 4.42850177663134184d-02, 4.11637926493125181d-02, 3.66104060575279736d-02,  &
       3.08197874435297281d-02, 2.40182892052079287d-02, 1.64479354939619619d-02, 8.35719179433626162d-03]
       ss(1:16, 5, 3) = [ &
       9.37891237580779948d-03, 1.85965429339085483d-02, 2.74184920160125481d-02, 3.55562754643991008d-02,  &
       4.26925316919751704d-02, 4.85107540510720317d-02, 5.27265222330834116d-02, 5.51162953997498123d-02,  &
       5.55397245235170686d-02, 5.39523094741333059d-02, 5.04069594629255394d-02, 4.50452204344128221d-02,  &
       3.80810377256013965d-02, 2.97813602930777112d-02, 2.04482885924897849d-02, 1.04067438353789374d-02]
       ss(1:16, 6, 3) = [ &
       1.03950632823136754d-02, 2.06446259612300918d-02, 3.05179397696149594d-02, 3.97155640370112570d-02,  &
       4.78932006908801278d-02, 5.46918297366138020d-02, 5.97715499406002854d-02, 6.28452409358920688d-02,  &
       6.37076086430774374d-02, 6.22556287881712092d-02, 5.84978674200490947d-02, 5.25523189034961397d-02,  &
       4.46347039002098211d-02, 3.50409891673938087d-02, 2.41287439044289495d-02, 1.23016349808546446d-02]
       ss(1:16, 7, 3) = [ &
       1.09851298654862588d-02, 2.18562595650997026d-02, 3.24044158713762062d-02, 4.23378060175000417d-02,  &
       5.13020820409302580d-02, 5.89086773580683801d-02, 6.47694048566094388d-02, 6.85338523210637929d-02,  &
       6.99250275233238155d-02, 6.87685723408884148d-02, 6.50118314609069992d-02, 5.87309487444027598d-02,  &
       5.01264950876345733d-02, 3.95102750852788856d-02, 2.72873420428084400d-02, 1.39375338323511431d-02]
       ss(1:16, 8, 3) = [ &
       1.11416458107022800d-02, 2.22117735769289323d-02, 3.30372902736879165d-02, 4.33500326538737921d-02,  &
       5.28018377840629230d-02, 6.09892243682954305d-02, 6.74869105935927555d-02, 7.18874429069882581d-02,  &
       7.38425902069226453d-02, 7.31013422446013111d-02, 6.95396454739231201d-02, 6.31784133714187041d-02,  &
       5.41885207131780136d-02, 4.28838509389828579d-02, 2.97053828828832828d-02, 1.52003015360710515d-02]
       ss(1:16, 9, 3) = [ &
       1.08834726359929267d-02, 2.17427693330168037d-02, 3.24492398808106305d-02, 4.27701945415779466d-02,  &
       5.23779254257828106d-02, 6.08694353017723636d-02, 6.77972473978245560d-02, 7.27095325156788819d-02,  &
       7.51957016669643069d-02, 7.49321088770961152d-02, 7.17220432953964149d-02, 6.55249566994354909d-02,  &
       5.64717114547817894d-02, 4.48650661986551569d-02, 3.11670019320506482d-02, 1.59762362786399215d-02]
       ss(1:16, 10, 3) = [ &
       1.02505041117605875d-02, 2.05224581962367737d-02, 3.07340064417191625d-02, 4.06947745863630514d-02,  &
       5.01088298445812874d-02, 5.85888530387626075d-02, 6.56829961699066378d-02, 7.09137132051178010d-02,  &
       7.38254290822132897d-02, 7.40358111048259743d-02, 7.12841986652455600d-02, 6.54708119127500876d-02,  &
       5.66817352462674340d-02, 4.51970212147894540d-02, 3.14819817648501477d-02, 1.61641537577554249d-02]
       ss(1:16, 11, 3) = [ &
       9.29669275875519806d-03, 1.86526666006278409d-02, 2.80292424693697785d-02, 3.72800831361074433d-02,  &
       4.61488746632932254d-02, 5.42780628387489403d-02, 6.12310140736636865d-02, 6.65278772204608293d-02,  &
       6.96928441007953065d-02, 7.03079847890998727d-02, 6.80670097989975048d-02, 6.28217146439757484d-02,  &
       5.46147158364741411d-02, 4.36942146833128181d-02, 3.05094010449423886d-02, 1.56880299421955152d-02]
       ss(1:16, 12, 3) = [ &
       8.08263203894758232d-03, 1.62498302651189232d-02, 2.44975724432831034d-02, 3.27207663733833573d-02,  &
       4.07070733483943514d-02, 4.81409783617019263d-02, 5.46210414541780306d-02, 5.96913870693208878d-02,  &
       6.28859531801191224d-02, 6.37813191661905921d-02, 6.20517156880134590d-02, 5.75187092305156772d-02,  &
       5.01884135106640608d-02, 4.02708817416617196d-02, 2.81791559994932876d-02, 1.45086113338602721d-02]
       ss(1:16, 13, 3) = [ &
       6.66884172237230434d-03, 1.34321633770856323d-02, 2.03088708504012630d-02, 2.72290157353948167d-02,  &
       3.40255790123585450d-02, 4.04351186824503800d-02, 4.61103677760606248d-02, 5.06462995013467407d-02,  &
       5.36188808146957768d-02, 5.46331247694366445d-02, 5.33747354051167799d-02, 4.96582478277751080d-02,  &
       4.34645390162588102d-02, 3.49620057518419611d-02, 2.45082643753823867d-02, 1.26323140124557608d-02]
       ss(1:16, 14, 3) = [ &
       5.11066205840190937d-03, 1.03097518381387171d-02, 1.56262140535640935d-02, 2.10174251556370269d-02,  &
       2.63608691378308356d-02, 3.14528360154870748d-02, 3.60169457326291603d-02, 3.97240963989213755d-02,  &
       4.22235529895383238d-02, 4.31826453595214738d-02, 4.23304431202321044d-02, 3.94993834506429872d-02,  &
       3.46585765709463769d-02, 2.79335431872856435d-02, 1.96092414441296596d-02, 1.01159240118012372d-02]
       ss(1:16, 15, 3) = [ &
       3.45531690506985147d-03, 6.97867636489531151d-03, 1.05971140338383292d-02, 1.42875151064032497d-02,  &
       1.79699399436610285d-02, 2.15058017942474644d-02, 2.47030193339617087d-02, 2.73294573005417908d-02,  &
       2.91346353190208712d-02, 2.98780389660820711d-02, 2.93607748050217048d-02, 2.74561956758625700d-02,  &
       2.41348254820424428d-02, 1.94795715118678443d-02, 1.36887052368307224d-02, 7.06607293293461114d-03]
       ss(1:16, 16, 3) = [ &
       1.74131714030013743d-03, 3.51953356835248664d-03, 5.35063690130143516d-03, 7.22479004238900987d-03,  &
       9.10263662652725791d-03, 1.09140814820710714d-02, 1.25606883410398478d-02, 1.39224315937294223d-02,  &
       1.48688487408693872d-02, 1.52737707168767358d-02, 1.50319497907591675d-02, 1.40752859125170392d-02,  &
       1.23861607113623651d-02, 1.00057070967914802d-02, 7.03561660000187345d-03, 3.63313779513687761d-03]
       ss(1:16, 17, 3) = [ &
       8.20884705327289410d-02, 1.63716691577950213d-01, 2.43158599504571915d-01, 3.17731853593181179d-01,  &
       3.84177282710527146d-01, 4.39086266863563224d-01, 4.79333877038830125d-01, 5.02463563931310864d-01,  &
       5.06969620730161830d-01, 4.92438150273182440d-01, 4.59533385506486924d-01, 4.09847556924021861d-01,  &
       3.45660548352063501d-01, 2.69672470735236924d-01, 1.84773397248012894d-01, 9.38997362633972738d-02]
       ss(1:16, 18, 3) = [ &
       5.32173148597503594d-03, 1.03168668118783346d-02, 1.47109403898275596d-02, 1.82908189685848169d-02,  &
       2.09133942058472126d-02, 2.25107327119139604d-02, 2.30893979369682992d-02, 2.27228191031800669d-02,  &
       2.15370005853013358d-02, 1.96912550502627536d-02, 1.73566836442413698d-02, 1.46955764263014405d-02,  &
       1.18446991952357566d-02, 8.90469881818577343d-03, 5.93686940473586375d-03, 2.96758046811525667d-03]
       sy(1:16, 4) = [ &
       9.71380133886437513d-01, 9.42011903355703395d-01, 9.11173629847247035d-01, 8.78157131869584773d-01,  &
       8.42259958256625918d-01, 8.02783498738186219d-01, 7.59037877861554411d-01, 7.10354924283346234d-01,  &
       6.56110785561804355d-01, 5.95759845464912896d-01, 5.28881367739603148d-01, 4.55239565048550843d-01,  &
       3.74856376635968214d-01, 2.88093955847241290d-01, 1.95740647095561743d-01, 9.90902327374463820d-02]
       ss(1:16, 1, 4) = [ &
       2.12070534774386524d-05, 4.20809611531196628d-05, 6.22252503301873734d-05, 8.11841187840808116d-05,  &
       9.84475470915900224d-05, 1.13458791063527655d-04, 1.25625854353840933d-04, 1.34338893475999770d-04,  &
       1.38995790914235167d-04, 1.39038205395846293d-04, 1.34000061177578389d-04, 1.23569391631143580d-04,  &
       1.07662392888787178d-04, 8.65052121761799453d-05, 6.07143567523822015d-05, 3.13610950907117737d-05]
       ss(1:16, 2, 4) = [ &
       4.24374300459023248d-05, 8.42082025512113491d-05, 1.24518936479385930d-04, 1.62457526371606912d-04,  &
       1.97003372579806021d-04, 2.27042374340679384d-04, 2.51389887601105274d-04, 2.68825554206909953d-04,  &
       2.78144476289987836d-04, 2.78229356524340983d-04, 2.68147530110688032d-04, 2.47274720059640837d-04,  &
       2.15443226027192084d-04, 1.73105591022675655d-04, 1.21495507790397473d-04, 6.27566920287183809d-05]
       ss(1:16, 3, 4) = [ &
       6.31344896030708769d-05, 1.25277188752776620d-04, 1.85247779337098338d-04, 2.41689315731641606d-04,  &
       2.93083444282212446d-04, 3.37772708540977319d-04, 3.73994703774883854d-04, 3.99933892650599699d-04,  &
       4.13797737857166191d-04, 4.13924025870163680d-04, 3.98925222379386505d-04, 3.67872584204611652d-04,  &
       3.20516621203385896d-04, 2.57530584707591544d-04, 1.80749849345436661d-04, 9.33636387883483149d-05]
       ss(1:16, 4, 4) = [ &
       8.25887542156133873d-05, 1.63880109486690069d-04, 2.42330046039127282d-04, 3.16163490089385363d-04,  &
       3.83394222862077705d-04, 4.41854058832622139d-04, 4.89237524565405441d-04, 5.23169640945643976d-04,  &
       5.41305515477236480d-04, 5.41470737062355544d-04, 5.21850213467067725d-04, 4.81229015897123255d-04,  &
       4.19280774469953240d-04, 3.36886195575312726d-04, 2.36446207111715059d-04, 1.22132762739375731d-04]
       ss(1:16, 5, 4) = [ &
       1.00022795013239674d-04, 1.98474319879005443d-04, 2.93484622929251094d-04, 3.82903923520660908d-04,  &
       4.64326723451246974d-04, 5.35127144383172018d-04, 5.92513038081428226d-04, 6.33608077195912337d-04,  &
       6.55572371197377622d-04, 6.55772498125434342d-04, 6.32010205134869393d-04, 5.82814094654303025d-04,  &
       5.07788899202126615d-04, 4.08001236607212730d-04, 2.86358858937224255d-04, 1.47914400360035672d-04]
       ss(1:16, 6, 4) = [ &
       1.14657763215479839d-04, 2.27514357325426711d-04, 3.36426229249580386d-04, 4.38929052464667659d-04,  &
       5.32265365943008942d-04, 6.13425081771897646d-04, 6.79207512524317939d-04, 7.26315473374867138d-04,  &
       7.51493546428609388d-04, 7.51722991391716032d-04, 7.24483909402130364d-04, 6.68089608401769251d-04,  &
       5.82086983357011484d-04, 4.67698714495297569d-04, 3.28258007089004514d-04, 1.69556782825515390d-04]
       ss(1:16, 7, 4) = [ &
       1.25771162515918311d-04, 2.49566578701223879d-04, 3.69034931543635108d-04, 4.81473037988062514d-04,  &
       5.83856166386827928d-04, 6.72882470099048636d-04, 7.45041026876157764d-04, 7.96715062118278760d-04,  &
       8.24333615077708394d-04, 8.24585342171514071d-04, 7.94706092268764952d-04, 7.32845681901722569d-04,  &
       6.38507083962644635d-04, 5.13031487619382211d-04, 3.60075176638087685d-04, 1.85991470075451751d-04]
       ss(1:16, 8, 4) = [ &
       1.32747933542210232d-04, 2.63410526818022908d-04, 3.89506034634519340d-04, 5.08181325872950930d-04,  &
       6.16243882225719713d-04, 7.10208696296450010d-04, 7.86370085159781890d-04, 8.40910639757386008d-04,  &
       8.70061304724258728d-04, 8.70327042435601315d-04, 8.38790361508295803d-04, 7.73498438736799454d-04,  &
       6.73926671470446667d-04, 5.41490645687866179d-04, 3.80049468392247222d-04, 1.96308895602725978d-04]
       ss(1:16, 9, 4) = [ &
       1.35124237689107928d-04, 2.68125810343838118d-04, 3.96478551387556078d-04, 5.17278258971881838d-04,  &
       6.27275267028280944d-04, 7.22922182561322479d-04, 8.00446984629181804d-04, 8.55963924176875060d-04,  &
       8.85636469843040534d-04, 8.85907012252280693d-04, 8.53805826813086978d-04, 7.87345126485138936d-04,  &
       6.85990913199450232d-04, 5.51184111569808215d-04, 3.86852912096726192d-04, 1.99823115814690616d-04]
       ss(1:16, 10, 4) = [ &
       1.32622422753728500d-04, 2.63161485876612907d-04, 3.89137798405019030d-04, 5.07700932243415094d-04,  &
       6.15661389698369697d-04, 7.09537456611287185d-04, 7.85626947817098450d-04, 8.40116053816137329d-04,  &
       8.69239270043418674d-04, 8.69504848833192430d-04, 8.37998042622924676d-04, 7.72767861824987510d-04,  &
       6.73290190952836876d-04, 5.40979274495779648d-04, 3.79690574811399994d-04, 1.96123519570070540d-04]
       ss(1:16, 11, 4) = [ &
       1.25175527394269173d-04, 2.48384682011822653d-04, 3.67287296816843560d-04, 4.79193000764814472d-04,  &
       5.81091390911045013d-04, 6.69696254415686441d-04, 7.41513285327501060d-04, 7.92942819519379264d-04,  &
       8.20430784099163775d-04, 8.20681490554631176d-04, 7.90943851250033901d-04, 7.29376421266931391d-04,  &
       6.35484510932670050d-04, 5.10602952007646626d-04, 3.58370720157122032d-04, 1.85111067945145749d-04]
       ss(1:16, 12, 4) = [ &
       1.12939966181714398d-04, 2.24105770266189478d-04, 3.31385992825484273d-04, 4.32353241063824947d-04,  &
       5.24291371349694889d-04, 6.04235388420350087d-04, 6.69032542965617523d-04, 7.15435024609163499d-04,  &
       7.40236156714431598d-04, 7.40462390042341740d-04, 7.13631542974565210d-04, 6.58082162217443734d-04,  &
       5.73367909510583357d-04, 4.60693139414386043d-04, 3.23341129241817328d-04, 1.67017055318633128d-04]
       ss(1:16, 13, 4) = [ &
       9.62955658120153628d-05, 1.91078437008506845d-04, 2.82548364250119087d-04, 3.68635690438290549d-04,  &
       4.47024561110206334d-04, 5.15186943379908205d-04, 5.70434719281674566d-04, 6.09998718301905636d-04,  &
       6.31144840836085370d-04, 6.31337757330452409d-04, 6.08461091081522669d-04, 5.61098240285655631d-04,  &
       4.88868642979033564d-04, 3.92799162522802770d-04, 2.75689207992505783d-04, 1.42403164855240500d-04]
       ss(1:16, 14, 4) = [ &
       7.58327977613708267d-05, 1.50474349381785787d-04, 2.22506959057450237d-04, 2.90300771873708025d-04,  &
       3.52032051843048470d-04, 4.05709971731269643d-04, 4.49217636553195753d-04, 4.80374321771537141d-04,  &
       4.97026920699246790d-04, 4.97178857853482290d-04, 4.79163483280551326d-04, 4.41865220359999452d-04,  &
       3.84984374920486041d-04, 3.09329601770820463d-04, 2.17105437387801503d-04, 1.12142589295217209d-04]
       ss(1:16, 15, 4) = [ &
       5.23277979729496693d-05, 1.03833587108154499d-04, 1.53539098740569359d-04, 2.00319665359089457d-04,  &
       2.42916833136238577d-04, 2.79956847974435340d-04, 3.09978963414488790d-04, 3.31478387616567166d-04,  &
       3.42969385954649143d-04, 3.43074236723290345d-04, 3.30642880606419514d-04, 3.04905522064110159d-04,  &
       2.65655358854675742d-04, 2.13450396313934562d-04, 1.49811857037112847d-04, 7.73830902203697502d-05]
       ss(1:16, 16, 4) = [ &
       2.67065128105616825d-05, 5.29934976067974003d-05, 7.83616760906959375d-05, 1.02237052394619571d-04,  &
       1.23977350106968043d-04, 1.42881446970140156d-04, 1.58203822368693748d-04, 1.69176476166661081d-04,  &
       1.75041134368948117d-04, 1.75094649435824170d-04, 1.68750065768460890d-04, 1.55614502855920658d-04,  &
       1.35582414905941503d-04, 1.08938590749421975d-04, 7.64594161298812121d-05, 3.94939762027218379d-05]
       ss(1:16, 17, 4) = [ &
       -3.84056567144660105d-02, -7.64847452794653049d-02, -1.13829140009718818d-01, -1.49903166004307309d-01,  &
       -1.84002403808999598d-01, -2.15219522936120705d-01, -2.42421619131560323d-01, -2.64246072611783733d-01,  &
       -2.79124661514638717d-01, -2.85348166924260516d-01, -2.81185226085499618d-01, -2.65068486397558700d-01,  &
       -2.35856461496951858d-01, -1.93168905838084659d-01, -1.37775361347717701d-01, -7.19906128760674363d-02]
       ss(1:16, 18, 4) = [ &
       5.56681189618076899d-03, 1.10807678815896989d-02, 1.64765296693930238d-02, 2.16706720416135513d-02,  &
       2.65567181148089367d-02, 3.10011391941853974d-02, 3.48409363799779687d-02, 3.78837516032939359d-02,  &
       3.99118056361070783d-02, 4.06912760354580169d-02, 3.99889054707279479d-02, 3.75975050723703283d-02,  &
       3.33713616302267688d-02, 2.72711140196253490d-02, 1.94152263061446832d-02, 1.01317461696604685d-02]
    case (12)
       sname = 'bursts'; sn = 2; sm = 4; sno = 5; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:2) = [ &
       2.00000000000000011d-01, 8.00000000000000044d-01]
       sp_(1:4) = [ &
       2.00000000000000000d+01, 2.00000000000000000d+00, 3.00000000000000000d+00, 5.00000000000000000d-01]
       sts(1:5) = [ &
       5.00000000000000000d-01, 1.80000000000000004d+00, 3.00000000000000000d+00, 5.00000000000000000d+00,  &
       8.00000000000000000d+00]
       sscl(1:2) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:2, 1) = [ &
       7.35758882342884973d-02, 7.20843805826969386d-01]
       ss(1:2, 1, 1) = [ &
       3.67879441171442223d-01, -5.63227063777609227d-01]
       ss(1:2, 2, 1) = [ &
       0.00000000000000000d+00, 6.44270785000634061d-01]
       ss(1:2, 3, 1) = [ &
       2.12619582997843409d-101, -5.08061242924250197d-104]
       ss(1:2, 4, 1) = [ &
       -3.67879441171442487d-02, 2.50668761874070084d-02]
       ss(1:2, 5, 1) = [ &
       0.00000000000000000d+00, -3.75484709185072985d-02]
       ss(1:2, 6, 1) = [ &
       0.00000000000000000d+00, 1.05491247972218316d-01]
       sy(1:2, 2) = [ &
       2.44298141426424448d-01, 3.33007074458978758d-01]
       ss(1:2, 1, 2) = [ &
       2.73237224472925658d-02, -1.25535243292118848d-01]
       ss(1:2, 2, 2) = [ &
       0.00000000000000000d+00, 7.38287808659953970d-02]
       ss(1:2, 3, 2) = [ &
       1.19416698468482792d-02, -1.20193264935302257d-02]
       ss(1:2, 4, 2) = [ &
       -2.00637887189556802d-01, 1.02979159666606965d-01]
       ss(1:2, 5, 2) = [ &
       0.00000000000000000d+00, -8.84978595096761605d-02]
       ss(1:2, 6, 2) = [ &
       0.00000000000000000d+00, 3.06664818703483222d-01]
       sy(1:2, 3) = [ &
       9.75414660811496859d-01, 1.21409962528387191d-01]
       ss(1:2, 1, 3) = [ &
       2.47875217666635979d-03, -3.05248700114359173d-03]
       ss(1:2, 2, 3) = [ &
       0.00000000000000000d+00, 1.44381482112658261d-03]
       ss(1:2, 3, 3) = [ &
       4.87459455188081689d-02, -6.19962180148416874d-03]
       ss(1:2, 4, 3) = [ &
       -5.57509287819434540d-01, 4.68023586918987766d-02]
       ss(1:2, 5, 3) = [ &
       0.00000000000000000d+00, -4.15343111433040466d-02]
       ss(1:2, 6, 3) = [ &
       0.00000000000000000d+00, 2.01949812504196996d-01]
       sy(1:2, 4) = [ &
       1.37878099199969184d-01, 3.27280577117168126d-01]
       ss(1:2, 1, 4) = [ &
       4.53999297624848406d-05, -1.77226958016177483d-04]
       ss(1:2, 2, 4) = [ &
       0.00000000000000000d+00, 4.00207808482519090d-05]
       ss(1:2, 3, 4) = [ &
       6.89345096070083808d-03, -8.39718927451085957d-03]
       ss(1:2, 4, 4) = [ &
       -1.65879572714169865d-01, 1.23756621077566270d-01]
       ss(1:2, 5, 4) = [ &
       0.00000000000000000d+00, -5.59930769606067844d-02]
       ss(1:2, 6, 4) = [ &
       0.00000000000000000d+00, 4.80524411096984572d-01]
       sy(1:2, 5) = [ &
       6.59215447031560320d-02, 3.81985916946262161d-01]
       ss(1:2, 1, 5) = [ &
       1.12535174719259262d-07, -4.14414396702764735d-07]
       ss(1:2, 2, 5) = [ &
       0.00000000000000000d+00, 3.93248932717739477d-08]
       ss(1:2, 3, 5) = [ &
       3.29607610980605682d-03, -6.12624600632407767d-03]
       ss(1:2, 4, 5) = [ &
       -1.31940231606102076d-01, 1.55407599205009100d-01]
       ss(1:2, 5, 5) = [ &
       0.00000000000000000d+00, -4.08416676697870018d-02]
       ss(1:2, 6, 5) = [ &
       0.00000000000000000d+00, 5.60255415418141056d-01]
    case (13)
       sname = 'sburst'; sn = 3; sm = 3; sno = 5; sstiff = .true.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:3) = [ &
       4.00000000000000008d-02, 2.00000000000000011d-01, 1.00000000000000000d+00]
       sp_(1:3) = [ &
       2.00000000000000000d+03, 2.00000000000000000d+01, 2.00000000000000000d+00]
       sts(1:5) = [ &
       5.00000000000000000d-01, 1.80000000000000004d+00, 3.00000000000000000d+00, 5.00000000000000000d+00,  &
       8.00000000000000000d+00]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       5.42425984915894006d-03, 7.35758882342838899d-02, 1.00000005428428285d+00]
       ss(1:3, 1, 1) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 3.52942923232384564d-134]
       ss(1:3, 2, 1) = [ &
       5.42425984915892653d-02, 3.67879441171418575d-01, 1.62852838953053963d-06]
       ss(1:3, 3, 1) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 5.16432212940851549d-131]
       ss(1:3, 4, 1) = [ &
       -5.43513010850029043d-09, 0.00000000000000000d+00, -7.17100341808284026d-13]
       ss(1:3, 5, 1) = [ &
       2.15115579929655189d-102, 2.12100377217383123d-101, 2.54333558765654229d-107]
       ss(1:3, 6, 1) = [ &
       -5.41882471905740046d-03, -3.67879441171514374d-02, -1.62135738607013184d-07]
       sy(1:3, 2) = [ &
       5.98011842729518905d-02, 2.44298141426426169d-01, 1.00007273595058233d+00]
       ss(1:3, 1, 2) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 2, 2) = [ &
       1.33770232679861680d-02, 2.73237224472926421d-02, 4.88075680934272284d-05]
       ss(1:3, 3, 2) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 4, 2) = [ &
       -5.99210263256344838d-08, 0.00000000000000000d+00, -9.60661138631886467d-10]
       ss(1:3, 5, 2) = [ &
       5.84634819461532333d-03, 1.19416698468483747d-02, 2.13310563860243520d-05]
       ss(1:3, 6, 2) = [ &
       -9.81674596152259521d-02, -2.00637887189558911d-01, -3.57432942076126665d-04]
       sy(1:3, 3) = [ &
       9.53340441408823236d-01, 9.75414660811495970d-01, 1.23375000186761596d+00]
       ss(1:3, 1, 3) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 2, 3) = [ &
       4.84531305338431993d-03, 2.47875217666636109d-03, 2.91936218440274437d-03]
       ss(1:3, 3, 3) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 4, 3) = [ &
       -9.55250943295390472d-07, 1.06292486988179028d-34, -1.83954793328250290d-06]
       ss(1:3, 5, 3) = [ &
       9.52855910103480863d-02, 4.87459455188079330d-02, 5.74107695517795044d-02]
       ss(1:3, 6, 3) = [ &
       -1.08882978488367366d+00, -5.57509287819439758d-01, -6.54769671671025066d-01]
       sy(1:3, 4) = [ &
       1.90484671733432594d-02, 1.37878099199969406d-01, 1.00000235088674594d+00]
       ss(1:3, 1, 4) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 2, 4) = [ &
       1.25444008406082359d-05, 4.53999297624847796d-05, 4.64453016458782676d-09]
       ss(1:3, 3, 4) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 4, 4) = [ &
       -1.90866404542490410d-08, 1.94681480826096304d-36, -3.10552380616450129d-11]
       ss(1:3, 5, 4) = [ &
       1.90472127332591860d-03, 6.89345096070084068d-03, 7.05217851494087233d-07]
       ss(1:3, 6, 4) = [ &
       -4.58149017000926209d-02, -1.65879572714170226d-01, -1.69388538166086109d-05]
       sy(1:3, 5) = [ &
       4.35435877359749684d-03, 6.59215447031560320d-02, 1.00000002808182220d+00]
       ss(1:3, 1, 5) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 2, 5) = [ &
       1.48667185389443809d-08, 1.12535174719258455d-07, 2.87632156385632417d-13]
       ss(1:3, 3, 5) = [ &
       0.00000000000000000d+00, 0.00000000000000000d+00, 0.00000000000000000d+00]
       ss(1:3, 4, 5) = [ &
       -4.36308494344375211d-09, 1.82374609127626479d-35, -3.70963522394098122d-13]
       ss(1:3, 5, 5) = [ &
       4.35435728692561879d-04, 3.29607610980603601d-03, 8.42454353885170498d-09]
       ss(1:3, 6, 5) = [ &
       -1.74259052035666030d-02, -1.31940231606102243d-01, -3.36859181906038540d-07]
    case (14)
       sname = 'lorenz'; sn = 3; sm = 3; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sp_(1:3) = [ &
       1.00000000000000000d+01, 2.80000000000000000d+01, 2.66670000000000007d+00]
       sts(1:4) = [ &
       2.99999999999999989d-01, 1.00000000000000000d+00, 2.00000000000000000d+00, 3.00000000000000000d+00]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       1.66848220740359778d+01, 2.71835160753746976d+01, 2.62064366811350951d+01]
       ss(1:3, 1, 1) = [ &
       4.99400442169149450d+00, 6.51146242029037037d-02, 1.83365695258007264d+01]
       ss(1:3, 2, 1) = [ &
       3.99573185519859653d+00, 7.22014385691490679d-02, 1.46486493568380212d+01]
       ss(1:3, 3, 1) = [ &
       -6.58733892256539333d-01, -5.18708451193310993d-01, -1.68149102355238678d+00]
       ss(1:3, 4, 1) = [ &
       1.42597125565347160d+00, 2.47207806033715727d-02, 3.39686898337359233d+00]
       ss(1:3, 5, 1) = [ &
       9.57202967391214465d-01, 1.00539895254814948d+00, 2.98943944039144283d+00]
       ss(1:3, 6, 1) = [ &
       2.43232170859223384d-01, 7.11759337632496880d-01, -7.05625615239892756d-01]
       sy(1:3, 2) = [ &
       -9.37862726228451926d+00, -8.35691587885305331d+00, 2.93625290180461072d+01]
       ss(1:3, 1, 2) = [ &
       4.59097187352021041d-01, 1.01439284119547057d+00, 7.69897857577858946d-02]
       ss(1:3, 2, 2) = [ &
       3.75414561756789389d-01, 8.08850353030139413d-01, 3.94643154502695021d-02]
       ss(1:3, 3, 2) = [ &
       -2.73795661269552459d-01, -6.32738311456889357d-02, 5.70426137937421585d-01]
       ss(1:3, 4, 2) = [ &
       -1.68123962422666307d-01, -5.79238819455341059d-01, -2.64630301111064170d-01]
       ss(1:3, 5, 2) = [ &
       3.10026084139754299d-01, 3.13166296646427145d-01, 4.46097346483816881d-01]
       ss(1:3, 6, 2) = [ &
       -1.71743838071126120d+00, 3.53739602385601737d+00, 6.11023655744932093d+00]
       sy(1:3, 3) = [ &
       -8.17366732899879267d+00, -9.56234893347602366d+00, 2.46206286986134728d+01]
       ss(1:3, 1, 3) = [ &
       -6.38916829749427762d-01, -8.76279962901873488d-01, 5.05220765694579854d-01]
       ss(1:3, 2, 3) = [ &
       -5.17695202767651796d-01, -6.95877465297441655d-01, 4.31202613550675240d-01]
       ss(1:3, 3, 3) = [ &
       2.56039342901108191d-01, -1.99833398392316106d-02, -7.75400829860818153d-01]
       ss(1:3, 4, 3) = [ &
       5.44670965912795735d-02, 3.10342333445933538d-01, 1.60574849008907644d-01]
       ss(1:3, 5, 3) = [ &
       -8.95189053920963262d-01, -8.22610685256555452d-01, 2.14606854279333703d+00]
       ss(1:3, 6, 3) = [ &
       -5.02203338322570225d+00, -9.75742832273615690d+00, -2.20010888925945558d+00]
       sy(1:3, 4) = [ &
       -7.45643186150962922d+00, -6.19083550731433263d+00, 2.74414038275544492d+01]
       ss(1:3, 1, 4) = [ &
       6.26945636825251951d-01, 1.69166051084616187d-01, -1.25204649194029871d+00]
       ss(1:3, 2, 4) = [ &
       4.94074778211888721d-01, 1.13391088198543530d-01, -1.01167488224046975d+00]
       ss(1:3, 3, 4) = [ &
       1.13986135210904949d-01, 5.53469180889099022d-01, 4.27732358902948695d-01]
       ss(1:3, 4, 4) = [ &
       1.14046714555051144d-02, -2.88214391156486838d-01, -1.50148614667148211d-01]
       ss(1:3, 5, 4) = [ &
       4.37613761082016661d-01, -4.65916360802911544d-01, -8.16649880537316686d-01]
       ss(1:3, 6, 4) = [ &
       6.79178713154019764d+00, 4.81789247553802014d+00, -1.20808215267555354d+01]
    case (15)
       sname = 'back'; sn = 3; sm = 2; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:3) = [ &
       0.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sp_(1:2) = [ &
       1.00000000000000000d+00, 5.10000000000000009d-01]
       sts(1:4) = [ &
       -2.00000000000000000d+00, -5.00000000000000000d+00, -9.00000000000000000d+00, -1.20000000000000000d+01]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       7.63501651334781095d-01, -6.45805875173849464d-01, 1.13898934740908642d+00]
       ss(1:3, 1, 1) = [ &
       -7.35566012317217077d-01, -8.69620247599562357d-01, -2.51467664589838269d-01]
       ss(1:3, 2, 1) = [ &
       4.49249187208400846d-01, -1.01732970999793704d+00, 1.53584643708986224d-01]
       ss(1:3, 3, 1) = [ &
       -1.15687956050805529d+00, -1.36771666037503570d+00, 4.82469374520424543d-01]
       ss(1:3, 4, 1) = [ &
       -1.31400579257124517d+00, -1.55347857778707921d+00, -5.79727651034169567d-01]
       ss(1:3, 5, 1) = [ &
       -3.08090651104294233d-01, -3.64239053749105424d-01, 1.50573180106849225d-01]
       sy(1:3, 2) = [ &
       -6.24867330823668299d-01, 7.80730951653195726d-01, 1.09504985383162068d+00]
       ss(1:3, 1, 2) = [ &
       8.54939314489657542d-01, 6.84260879282616363d-01, -2.48805165583988824d-01]
       ss(1:3, 2, 2) = [ &
       1.98837465750089815d-01, 1.43999291191212087d+00, -5.78658481974062416d-02]
       ss(1:3, 3, 2) = [ &
       3.45099177587452077d+00, 2.76204243615416045d+00, -9.11101258909146616d-02]
       ss(1:3, 4, 2) = [ &
       3.86284417416139858d+00, 3.09167341628361969d+00, -1.21509290382123836d+00]
       ss(1:3, 5, 2) = [ &
       8.07553722131135521d-01, 6.46335255155808142d-01, -5.67312237229471855d-02]
       sy(1:3, 3) = [ &
       -5.07086537236436485d-01, -8.61895146612140395d-01, 1.06355053743848171d+00]
       ss(1:3, 1, 3) = [ &
       -9.16669046394965936d-01, 5.39312159205634134d-01, 2.22898266931788103d-01]
       ss(1:3, 2, 3) = [ &
       -1.90698406937158804d+00, -3.82808185276573149d-02, 4.63704371606221466d-01]
       ss(1:3, 3, 3) = [ &
       -6.85012388541957851d+00, 4.03019510476619303d+00, 2.60593056821835356d+00]
       ss(1:3, 4, 3) = [ &
       -7.55007265148714790d+00, 4.44200226880844351d+00, 1.77423221658298247d+00]
       ss(1:3, 5, 3) = [ &
       -1.37244856091681267d+00, 8.07465027533807445d-01, 4.54612129025706746d-01]
       sy(1:3, 4) = [ &
       6.59259816444429103d-01, 7.51915217575528150d-01, 1.10528638272845670d+00]
       ss(1:3, 1, 4) = [ &
       8.31081650952530171d-01, -7.28670897796094397d-01, 2.52810819043513324d-01]
       ss(1:3, 2, 4) = [ &
       2.36696930707379405d+00, -7.45360298356755435d-01, 7.20020046750330045d-01]
       ss(1:3, 3, 4) = [ &
       8.26527032080103297d+00, -7.24677525762082997d+00, 3.41899616450029065d+00]
       ss(1:3, 4, 4) = [ &
       9.11912506611570528d+00, -7.99541301558698869d+00, 2.67371980514699992d+00]
       ss(1:3, 5, 4) = [ &
       1.67422499081309728d+00, -1.46791717248263032d+00, 7.05902006617969424d-01]
    case (16)
       sname = 'oreg'; sn = 3; sm = 3; sno = 4; sstiff = .true.; sloose = 6; stight = 9; ssens = 0
       st0 = 0.00000000000000000d+00
       sy0(1:3) = [ &
       1.00000000000000000d+00, 2.00000000000000000d+00, 3.00000000000000000d+00]
       sp_(1:3) = [ &
       7.72699999999999960d+01, 8.37500000000000028d-06, 1.61000000000000004d-01]
       sts(1:5) = [ &
       5.00000000000000000d-01, 1.00000000000000000d+01, 3.00000000000000000d+01, 1.00000000000000000d+02,  &
       2.00000000000000000d+02]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       2.01907710466702861d+00, 1.98072500195405055d+00, 2.92143714054081949d+00]
       ss(1:3, 1, 1) = [ &
       3.32701257116424910d-04, -3.20145789103519051d-04, 1.95125838767923787d-03]
       ss(1:3, 2, 1) = [ &
       -1.03081056930790105d+00, 9.92929739691226776d-01, -7.45897116398344939d-02]
       ss(1:3, 3, 1) = [ &
       -6.26744327066109958d-03, 6.19475181866556077d-03, 9.22415376871743353d-01]
       ss(1:3, 4, 1) = [ &
       -2.39667580324085357d-04, 2.44348285046754076d-04, 1.65046487391848728d-05]
       ss(1:3, 5, 1) = [ &
       -4.20149930278334161d+00, 4.88209037735674173d-02, -3.02250644043531247d-01]
       ss(1:3, 6, 1) = [ &
       1.57586611136878744d-03, -1.59587980670166372d-03, -4.68022330971487321d-01]
       sy(1:3, 2) = [ &
       2.73327742778033578d+00, 1.57592815958672805d+00, 2.51050858961122314d+00]
       ss(1:3, 1, 2) = [ &
       4.99715967423793386d-04, -1.66455306273420800d-04, 7.32741062696235217d-04]
       ss(1:3, 2, 2) = [ &
       -2.61877081182251592d+00, 8.73012009638683195d-01, -1.42627134057858185d+00]
       ss(1:3, 3, 2) = [ &
       -1.81376705279138684d-01, 6.05289789326645469d-02, 1.21773060149351450d-01]
       ss(1:3, 4, 2) = [ &
       -1.57378426612098284d-02, 5.27251302916898357d-03, -5.78157150938579407d-03]
       ss(1:3, 5, 2) = [ &
       -1.64156228729141596d+01, 1.16913909396888238d+00, -7.74587145727717186d+00]
       ss(1:3, 6, 2) = [ &
       5.27012018682587735d-01, -1.75939743383188740d-01, -5.74633489194914304d-01]
       sy(1:3, 3) = [ &
       1.00066146718049986d+00, 1.51277893734828331d+03, 1.03585431276720028d+04]
       ss(1:3, 1, 3) = [ &
       -1.22162500278880297d-07, 2.79200697145091159d-01, -4.90668824454290142d+00]
       ss(1:3, 2, 3) = [ &
       7.87340533315260857d-04, -1.79945585012074844d+03, 3.16237350287600093d+04]
       ss(1:3, 3, 3) = [ &
       6.79773033732167692d-05, -1.55361182429291375d+02, 2.73032587410756241d+03]
       ss(1:3, 4, 3) = [ &
       1.82313324096865503d-05, -4.16675133556393149d+01, 4.12725403031224630d+02]
       ss(1:3, 5, 3) = [ &
       7.88882396391888392d+01, -1.80299977157371938d+08, -1.23337917570406890d+09]
       ss(1:3, 6, 3) = [ &
       1.19280472474074593d-03, -2.72615437914506538d+03, -9.42772911450323008d+04]
       sy(1:3, 4) = [ &
       1.00244996617005433d+00, 4.09165130436745756d+02, 1.13416611916429844d+00]
       ss(1:3, 1, 4) = [ &
       1.87015439912928129d-07, -3.11568577939465435d-02, -6.23980159021333644d-05]
       ss(1:3, 2, 4) = [ &
       -1.20531943815076811d-03, 2.00806769474368792d+02, 4.02156856695354226d-01]
       ss(1:3, 3, 4) = [ &
       -1.04064711064492198d-04, 1.73372284422831768d+01, 3.47213657806868040d-02]
       ss(1:3, 4, 4) = [ &
       -4.04925852787622680d-05, 6.74609190746025256d+00, 5.23106568861424204d-03]
       ss(1:3, 5, 4) = [ &
       2.92609594817118762d+02, -4.87493024168313146d+07, -1.54733062968990707d+04]
       ss(1:3, 6, 4) = [ &
       1.87197676104770838d-02, -3.11872184439877719d+03, -1.04280009685979138d+01]
       sy(1:3, 5) = [ &
       1.03361638586866400d+00, 3.07467852888594599d+01, 1.02884276027419452d+00]
       ss(1:3, 1, 5) = [ &
       2.64645028614653613d-06, -2.34184545727571247d-03, 2.26141410133193980d-06]
       ss(1:3, 2, 5) = [ &
       -1.70564418289592158d-02, 1.50932556804597660d+01, -1.45748734720122213d-02]
       ss(1:3, 3, 5) = [ &
       -1.47261683047455213d-03, 1.30311952308619095d+00, -1.25836350817795173d-03]
       ss(1:3, 4, 5) = [ &
       -1.73691449998968398d-03, 1.53700565293630942d+00, -1.43136629070805387d-03]
       ss(1:3, 5, 5) = [ &
       4.14004034324530403d+03, -3.66355598227034928d+06, 3.53770796017657494d+03]
       ss(1:3, 6, 5) = [ &
       2.64937886926924326d-01, -2.34443696082266314d+02, 2.51752946498450869d-01]
    case (17)
       sname = 'hill'; sn = 3; sm = 2; sno = 4; sstiff = .false.; sloose = 3; stight = 9; ssens = 3
       st0 = 0.00000000000000000d+00
       sy0(1:3) = [ &
       1.00000000000000006d-01, 5.00000000000000000d-01, 1.00000000000000000d+00]
       sp_(1:2) = [ &
       3.00000000000000000d+00, 8.00000000000000044d-01]
       sts(1:4) = [ &
       1.00000000000000000d+00, 4.00000000000000000d+00, 1.00000000000000000d+01, 2.50000000000000000d+01]
       sscl(1:3) = [ &
       1.00000000000000000d+00, 1.00000000000000000d+00, 1.00000000000000000d+00]
       sy(1:3, 1) = [ &
       8.33891546173697762d-01, 1.79099552290157371d+00, 6.39990587358417518d-01]
       ss(1:3, 1, 1) = [ &
       3.09891539005349992d-01, -5.64702636987268636d-01, 5.12864902728521477d-02]
       ss(1:3, 2, 1) = [ &
       1.05646074495948383d+00, -7.00680836089807468d-01, -4.23455564506657722d-01]
       ss(1:3, 3, 1) = [ &
       -9.88948595364876337d-01, 1.10541730597547483d+00, 3.07962120383817484d-01]
       ss(1:3, 4, 1) = [ &
       3.11101570308754460d-01, 2.75082878662692654d-01, -4.12670940212386053d-02]
       ss(1:3, 5, 1) = [ &
       4.12894880290040345d-01, 3.33925328352066175d-01, 8.28036102830449705d-01]
       sy(1:3, 2) = [ &
       4.90838923677491656d-01, 1.38977201473801726d+00, 1.47072390763964034d+00]
       ss(1:3, 1, 2) = [ &
       -1.15860529975500948d-01, 7.26986820242573994d-01, -8.45279190120459156d-01]
       ss(1:3, 2, 2) = [ &
       -2.53407403267209119d-01, 1.33301229192223469d+00, -1.34138113918529456d+00]
       ss(1:3, 3, 2) = [ &
       2.95353136890917245d-01, -1.65626692232444461d+00, 1.76616662377669242d+00]
       ss(1:3, 4, 2) = [ &
       -4.11116364007993312d-02, 4.71822910254301287d-01, 1.99224862538527836d-01]
       ss(1:3, 5, 2) = [ &
       5.71388063275160007d-01, 1.11420672289272327d+00, -1.72373518934924308d-01]
       sy(1:3, 3) = [ &
       1.97802022221658347d+00, 7.98559118801150380d-01, 6.51032897834053936d-01]
       ss(1:3, 1, 3) = [ &
       7.64765841243268130d-02, -5.85740150028319362d-01, 6.97720911962110502d-01]
       ss(1:3, 2, 3) = [ &
       1.22267658498899770d-01, -8.56318046901776486d-01, 1.01709839267082081d+00]
       ss(1:3, 3, 3) = [ &
       -1.60486678555412959d-01, 1.16781905722063484d+00, -1.38883794960419826d+00]
       ss(1:3, 4, 3) = [ &
       6.72777537804844505d-01, 3.82345941966398373d-01, -3.85621713818022238d-01]
       ss(1:3, 5, 3) = [ &
       6.42409996194748534d-02, -1.28695590733119758d+00, 3.27301837670086959d+00]
       sy(1:3, 4) = [ &
       1.07956310437845548d+00, 1.76795386517426323d+00, 5.74380881038439206d-01]
       ss(1:3, 1, 4) = [ &
       1.06434619418465970d+00, -8.84802232161956081d-01, -3.74129611961515007d-01]
       ss(1:3, 2, 4) = [ &
       1.54155606587826410d+00, -1.28150294799578757d+00, -5.41875504048778822d-01]
       ss(1:3, 3, 4) = [ &
       -2.11097078420353679d+00, 1.75486550037591682d+00, 7.42030858230407375d-01]
       ss(1:3, 4, 4) = [ &
       -2.27504629773956513d+00, 2.59489261017648998d+00, 8.70535487893052573d-01]
       ss(1:3, 5, 4) = [ &
       1.14230751618038582d+01, -8.80294721064629826d+00, -3.08863215956322890d+00]
    end select
