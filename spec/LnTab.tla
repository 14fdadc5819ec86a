------------------------------- MODULE LnTab -------------------------------
(* Ln[n] = round(10^8 * ln n).  Written by tools; a table because TLA+ has no reals. *)
EXTENDS Integers
Ln == <<0, 69314718, 109861229, 138629436, 160943791, 179175947, 194591015, 207944154, 219722458, 230258509, 239789527, 248490665, 256494936, 263905733, 270805020, 277258872, 283321334, 289037176, 294443898, 299573227, 304452244, 309104245, 313549422, 317805383, 321887582, 325809654, 329583687, 333220451, 336729583, 340119738, 343398720, 346573590, 349650756, 352636052, 355534806, 358351894, 361091791, 363758616, 366356165, 368887945, 371357207, 373766962, 376120012, 378418963, 380666249, 382864140, 385014760, 387120101, 389182030, 391202301, 393182563, 395124372, 397029191, 398898405, 400733319, 402535169, 404305127, 406044301, 407753744, 409434456, 411087386, 412713439, 414313473, 415888308, 417438727, 418965474, 420469262, 421950771, 423410650, 424849524, 426267988, 427666612, 429045944, 430406509, 431748811, 433073334, 434380542, 435670883, 436944785, 438202663, 439444915, 440671925, 441884061, 443081680, 444265126, 445434730, 446590812, 447733681, 448863637, 449980967, 451085951, 452178858, 453259949, 454329478, 455387689, 456434819, 457471098, 458496748, 459511985, 460517019, 461512052, 462497281, 463472899, 464439090, 465396035, 466343909, 467282883, 468213123, 469134788, 470048037, 470953020, 471849887, 472738782, 473619845, 474493213, 475359019, 476217393, 477068462, 477912349, 478749174, 479579055, 480402104, 481218436, 482028157, 482831374, 483628191, 484418709, 485203026, 485981240, 486753445, 487519732, 488280192, 489034913, 489783980, 490527478, 491265489, 491998093, 492725369, 493447393, 494164242, 494875989, 495582706, 496284463, 496981330, 497673374, 498360662, 499043259, 499721227, 500394631, 501063529, 501727984, 502388052, 503043792, 503695260, 504342512, 504985601, 505624581, 506259503, 506890420, 507517382, 508140436, 508759634, 509375020, 509986643, 510594547, 511198779, 511799381, 512396398, 512989871, 513579844, 514166356, 514749448, 515329159, 515905530, 516478597, 517048400, 517614973, 518178355, 518738581, 519295685, 519849703, 520400669, 520948615, 521493576, 522035583, 522574667, 523110862, 523644196, 524174702, 524702407, 525227343, 525749537, 526269019, 526785816, 527299956, 527811466, 528320373, 528826703, 529330482, 529831737, 530330491, 530826770, 531320598, 531811999, 532300998, 532787617, 533271879, 533753808, 534233425, 534710753, 535185813, 535658627, 536129217, 536597602, 537063803, 537527841, 537989735, 538449506, 538907173, 539362755, 539816270, 540267738, 540717177, 541164605, 541610040, 542053500, 542495002, 542934563, 543372200, 543807931, 544241771, 544673737, 545103845, 545532112, 545958551, 546383181, 546806014, 547227067, 547646355, 548063892, 548479693, 548893773, 549306144, 549716823, 550125821, 550533154, 550938834, 551342875, 551745290, 552146092, 552545294, 552942909, 553338949, 553733427, 554126355, 554517744, 554907608, 555295958, 555682806, 556068163, 556452041, 556834450, 557215403, 557594910, 557972983, 558349631, 558724866, 559098698, 559471138, 559842196, 560211882, 560580207, 560947180, 561312811, 561677110, 562040087, 562401751, 562762111, 563121178, 563478960, 563835467, 564190707, 564544690, 564897424, 565248918, 565599181, 565948222, 566296048, 566642669, 566988092, 567332327, 567675380, 568017261, 568357977, 568697536, 569035945, 569373214, 569709349, 570044357, 570378247, 570711026, 571042702, 571373281, 571702770, 572031178, 572358510, 572684775, 573009978, 573334128, 573657230, 573979291, 574300319, 574620319, 574939299, 575257264, 575574221, 575890177, 576205138, 576519110, 576832100, 577144112, 577455155, 577765232, 578074352, 578382518, 578689738, 578996017, 579301361, 579605775, 579909265, 580211838, 580513497, 580814249, 581114099, 581413053, 581711116, 582008293, 582304590, 582600011, 582894562, 583188248, 583481074, 583773045, 584064166, 584354442, 584643878, 584932478, 585220248, 585507192, 585793315, 586078622, 586363118, 586646806, 586929691, 587211779, 587493073, 587773578, 588053299, 588332239, 588610403, 588887796, 589164421, 589440283, 589715387, 589989735, 590263333, 590536185, 590808294, 591079664, 591350301, 591620206, 591889385, 592157842, 592425580, 592692603, 592958914, 593224519, 593489420, 593753621, 594017125, 594279938, 594542061, 594803499, 595064255, 595324333, 595583737, 595842469, 596100534, 596357934, 596614674, 596870756, 597126184, 597380961, 597635091, 597888576, 598141421, 598393628, 598645201, 598896142, 599146455, 599396143, 599645209, 599893656, 600141488, 600388707, 600635316, 600881319, 601126717, 601371516, 601615716, 601859321, 602102335, 602344759, 602586597, 602827852, 603068526, 603308622, 603548143, 603787092, 604025471, 604263283, 604500531, 604737218, 604973346, 605208917, 605443935, 605678401, 605912320, 606145692, 606378521, 606610809, 606842559, 607073773, 607304453, 607534603, 607764224, 607993320, 608221891, 608449941, 608677473, 608904488, 609130988, 609356977, 609582456, 609807428, 610031895, 610255859, 610479323, 610702289, 610924758, 611146734, 611368218, 611589213, 611809720, 612029742, 612249281, 612468339, 612686918, 612905021, 613122649, 613339804, 613556489, 613772705, 613988455, 614203741, 614418563, 614632926, 614846830, 615060277, 615273269, 615485809, 615697899, 615909539, 616120732, 616331480, 616541785, 616751649, 616961073, 617170060, 617378610, 617586727, 617794411, 618001665, 618208491, 618414889, 618620862, 618826412, 619031541, 619236249, 619440539, 619644413, 619847872, 620050917, 620253552, 620455776, 620657593, 620859003, 621060008, 621260610, 621460810, 621660610, 621860012, 622059017, 622257627, 622455843, 622653667, 622851100, 623048145, 623244802, 623441073, 623636959, 623832463, 624027585, 624222327, 624416690, 624610677, 624804287, 624997524, 625190388, 625382881, 625575004, 625766759, 625958146, 626149168, 626339826, 626530121, 626720055, 626909628, 627098843, 627287701, 627476202, 627664349, 627852142, 628039584, 628226675, 628413416, 628599809, 628785856, 628971557, 629156914, 629341928, 629526600, 629710932, 629894925, 630078579, 630261898, 630444880, 630627529, 630809844, 630991828, 631173481, 631354805, 631535800, 631716469, 631896811, 632076829, 632256524, 632435896, 632614947, 632793678, 632972091, 633150185, 633327963, 633505425, 633682573, 633859408, 634035930, 634212142, 634388043, 634563636, 634738921, 634913899, 635088572, 635262940, 635437004, 635610766, 635784227, 635957387, 636130248, 636302810, 636475076, 636647045, 636818719, 636990098, 637161185, 637331979, 637502482, 637672695, 637842618, 638012254, 638181602, 638350663, 638519440, 638687932, 638856141, 639024067, 639191711, 639359075, 639526160, 639692966, 639859493, 640025745, 640191720, 640357420, 640522846, 640687999, 640852879, 641017488, 641181827, 641345896, 641509696, 641673228, 641836494, 641999493, 642162227, 642324696, 642486902, 642648846, 642810527, 642971948, 643133108, 643294009, 643454652, 643615037, 643775165, 643935037, 644094654, 644254017, 644413126, 644571982, 644730586, 644888939, 645047042, 645204895, 645362500, 645519856, 645676966, 645833828, 645990445, 646146818, 646302946, 646458830, 646614472, 646769873, 646925032, 647079950, 647234629, 647389070, 647543272, 647697236, 647850964, 648004456, 648157713, 648310735, 648463524, 648616079, 648768402, 648920493, 649072353, 649223984, 649375384, 649526556, 649677499, 649828215, 649978704, 650128967, 650279005, 650428817, 650578406, 650727771, 650876914, 651025834, 651174533, 651323011, 651471269, 651619308, 651767127, 651914729, 652062113, 652209280, 652356231, 652502966, 652649486, 652795792, 652941884, 653087763, 653233429, 653378884, 653524127, 653669160, 653813982, 653958596, 654103000, 654247196, 654391185, 654534966, 654678541, 654821910, 654965074, 655108034, 655250789, 655393340, 655535689, 655677836, 655819780, 655961524, 656103067, 656244409, 656385553, 656526497, 656667243, 656807791, 656948142, 657088296, 657228254, 657368017, 657507584, 657646957, 657786136, 657925121, 658063914, 658202514, 658340922, 658479139, 658617165, 658755001, 658892648, 659030105, 659167373, 659304453, 659441346, 659578051, 659714570, 659850903, 659987050, 660123012, 660258789, 660394382, 660529792, 660665019, 660800063, 660934924, 661069604, 661204103, 661338422, 661472560, 661606519, 661740298, 661873898, 662007321, 662140565, 662273632, 662406523, 662539237, 662671775, 662804138, 662936325, 663068339, 663200178, 663331843, 663463336, 663594656, 663725803, 663856779, 663987583, 664118217, 664248680, 664378973, 664509097, 664639051, 664768837, 664898455, 665027905, 665157187, 665286303, 665415252, 665544035, 665672652, 665801105, 665929392, 666057515, 666185474, 666313270, 666440902, 666568372, 666695679, 666822825, 666949809, 667076632, 667203295, 667329797, 667456139, 667582322, 667708346, 667834211, 667959919, 668085468, 668210860, 668336095, 668461173, 668586095, 668710861, 668835471, 668959927, 669084228, 669208374, 669332367, 669456206, 669579892, 669703425, 669826805, 669950034, 670073111, 670196037, 670318811, 670441435, 670563909, 670686234, 670808408, 670930434, 671052311, 671174040, 671295620, 671417053, 671538339, 671659477, 671780470, 671901315, 672022016, 672142570, 672262979, 672383244, 672503364, 672623340, 672743172, 672862861, 672982407, 673101810, 673221071, 673340189, 673459166, 673578001, 673696696, 673815249, 673933663, 674051936, 674170069, 674288064, 674405919, 674523635, 674641213, 674758653, 674875955, 674993119, 675110147, 675227038, 675343792, 675460410, 675576892, 675693239, 675809450, 675925527, 676041469, 676157277, 676272951, 676388491, 676503898, 676619171, 676734313, 676849321, 676964198, 677078942, 677193556, 677308038, 677422389, 677536609, 677650699, 677764659, 677878490, 677992191, 678105763, 678219206, 678332520, 678445706, 678558765, 678671695, 678784498, 678897174, 679009724, 679122146, 679234443, 679346613, 679458658, 679570578, 679682372, 679794041, 679905586, 680017007, 680128303, 680239476, 680350526, 680461452, 680572255, 680682936, 680793494, 680903931, 681014245, 681124438, 681234509, 681344460, 681454290, 681563999, 681673588, 681783057, 681892407, 682001636, 682110747, 682219739, 682328612, 682437367, 682546004, 682654522, 682762923, 682871207, 682979374, 683087423, 683195357, 683303173, 683410874, 683518459, 683625928, 683733281, 683840520, 683947644, 684054653, 684161548, 684268328, 684374995, 684481548, 684587988, 684694314, 684800527, 684906628, 685012617, 685118493, 685224257, 685329909, 685435450, 685540880, 685646198, 685751406, 685856503, 685961490, 686066367, 686171134, 686275791, 686380339, 686484778, 686589107, 686693328, 686797441, 686901445, 687005341, 687109129, 687212810, 687316383, 687419850, 687523209, 687626461, 687729607, 687832647, 687935580, 688038408, 688141130, 688243747, 688346259, 688448665, 688550967, 688653164, 688755257, 688857246, 688959131, 689060912, 689162590, 689264164, 689365635, 689467004, 689568270, 689669433, 689770494, 689871453, 689972311, 690073066, 690173721, 690274274, 690374726, 690475077, 690575328, 690675478, 690775528, 690875478, 690975328, 691075079, 691174730, 691274282, 691373735, 691473089, 691572345, 691671502, 691770561, 691869522, 691968385, 692067150, 692165818, 692264389, 692362863, 692461240, 692559520, 692657703, 692755791, 692853782, 692951677, 693049477, 693147181, 693244789, 693342303, 693439721, 693537045, 693634274, 693731408, 693828448, 693925395, 694022247, 694119006, 694215671, 694312242, 694408721, 694505106, 694601399, 694697599, 694793707, 694889722, 694985646, 695081477, 695177216, 695272864, 695368421, 695463886, 695559261, 695654544, 695749737, 695844839, 695939851, 696034773, 696129605, 696224346, 696318999, 696413561, 696508035, 696602419, 696696714, 696790920, 696885038, 696979067, 697073008, 697166860, 697260625, 697354302, 697447891, 697541393, 697634807, 697728134, 697821374, 697914528, 698007594, 698100574, 698193468, 698286275, 698378997, 698471632, 698564182, 698656646, 698749025, 698841318, 698933527, 699025650, 699117689, 699209643, 699301512, 699393298, 699484999, 699576616, 699668149, 699759598, 699850964, 699942247, 700033446, 700124562, 700215595, 700306546, 700397414, 700488199, 700578902, 700669523, 700760061, 700850518, 700940893, 701031187, 701121399, 701211529, 701301579, 701391547, 701481435, 701571242, 701660968, 701750614, 701840180, 701929665, 702019071, 702108396, 702197642, 702286809, 702375895, 702464903, 702553831, 702642681, 702731451, 702820143, 702908756, 702997291, 703085748, 703174126, 703262426, 703350648, 703438793, 703526860, 703614849, 703702761, 703790596, 703878354, 703966035, 704053639, 704141166, 704228617, 704315992, 704403290, 704490512, 704577658, 704664728, 704751722, 704838641, 704925484, 705012252, 705098945, 705185562, 705272105, 705358573, 705444966, 705531284, 705617528, 705703698, 705789794, 705875815, 705961763, 706047637, 706133437, 706219163, 706304816, 706390396, 706475903, 706561336, 706646697, 706731985, 706817200, 706902343, 706987413, 707072411, 707157336, 707242190, 707326972, 707411682, 707496320, 707580886, 707665382, 707749805, 707834158, 707918439, 708002650, 708086790, 708170859, 708254857, 708338785, 708422642, 708506429, 708590146, 708673793, 708757371, 708840878, 708924316, 709007684>>
LnMax == 1200
===========================================================================
