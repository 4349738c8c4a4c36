// Written by tools/hard_numbers.py: conversions that the last bits of an exact computation decide.
#ifndef VERIF_HARD_NUMBERS_H_
#define VERIF_HARD_NUMBERS_H_
#include <cstdint>
namespace hard {
struct Decimal {
  uint64_t m;
  int e;
};
static const Decimal D17[] = {
{24703282292062328ull,-340}, {74109846876186981ull,-340}, {74109846876186982ull,-340}, {7410984687618698ull,-339}, {7410984687618699ull,-339}, {12351641146031164ull,-339}, {17292297604443629ull,-339}, {27173610521268560ull,-339},
{32114266979681025ull,-339}, {61758205730155818ull,-339}, {71639518646980749ull,-339}, {81520831563805680ull,-339}, {96342800939043076ull,-339}, {4693623635491842ull,-338}, {7163951864698075ull,-338}, {8152083156380568ull,-338},
{14574936552316773ull,-338}, {19021527364887992ull,-338}, {30879102865077909ull,-338}, {36313824969331621ull,-338}, {59040844678028962ull,-338}, {69910288886536386ull,-338}, {75345010990790098ull,-338}, {4076041578190284ull,-337},
{5360612257377525ull,-337}, {8077973309504381ull,-337}, {12079905040818478ull,-337}, {18799197824259431ull,-337}, {21516558876386287ull,-337}, {28235851659827240ull,-337}, {34955144443268193ull,-337}, {91426847762922673ull,-337},
{98146140546363626ull,-337}, {8470755497948172ull,-336}, {9542877949423677ull,-336}, {14117925829913620ull,-336}, {15190048281389125ull,-336}, {25412266493844516ull,-336}, {37778729609250917ull,-336}, {42353777489740860ull,-336},
{77308921933009053ull,-336}, {82956092264974501ull,-336}, {95322555380380902ull,-336}, {4235377748974086ull,-335}, {7273387405251911ull,-335}, {9882548080939534ull,-335}, {15744142903200083ull,-335}, {18567728069182807ull,-335},
{30076493223408804ull,-335}, {47232428709600249ull,-335}, {64388364195791694ull,-335}, {81544299681983139ull,-335}, {95876650002191860ull,-335}, {4137083388733970ull,-334}, {6156477902980897ull,-334}, {7568270485972259ull,-334},
{9587665000219186ull,-334}, {13018852097457475ull,-334}, {25331807903419269ull,-334}, {28762995000657558ull,-334}, {32194182097895847ull,-334}, {67113655001534302ull,-334}, {89720172099210963ull,-334}, {7397602919601088ull,-333},
{9173956661345789ull,-333}, {14381497500328779ull,-333}, {16985267919820274ull,-333}, {23969162500547965ull,-333}, {36160597920258646ull,-333}, {43144492500986337ull,-333}, {74511257921135390ull,-333}, {91082817502082267ull,-333},
{93686587921573762ull,-333}, {6930371708215240ull,-332}, {7451125792113539ull,-332}, {11724204208324833ull,-332}, {12244958292223132ull,-332}, {17038790792332725ull,-332}, {31941042376559803ull,-332}, {41528707376778989ull,-332},
{46322539876888582ull,-332}, {75606288961444439ull,-332}, {80400121461554032ull,-332}, {4100795329288069ull,-331}, {6122479146111566ull,-331}, {7508553487754614ull,-331}, {12937995463044656ull,-331}, {19753511779977746ull,-331},
{23161269938444291ull,-331}, {26569028096910836ull,-331}, {52445019023000148ull,-331}, {62668293498399783ull,-331}, {66076051656866328ull,-331}, {5798931638957234ull,-330}, {10558307521682182ull,-330}, {11239859153375491ull,-330},
{20770096457953602ull,-330}, {32356474196739855ull,-330}, {33038025828433164ull,-330}, {54836192503490837ull,-330}, {75952807546855201ull,-330}, {97750974221912874ull,-330}, {98432525853606183ull,-330}, {5279153760841091ull,-329},
{7663435917854851ull,-329}, {11750448600189062ull,-329}, {14134730757202822ull,-329}, {20606025596550793ull,-329}, {29461602592912524ull,-329}, {42404192271608466ull,-329}, {48875487110956437ull,-329}, {77144948625362081ull,-329},
{83616243464710052ull,-329}, {3457209127669952ull,-328}, {6590508947198659ull,-328}, {6828937162900035ull,-328}, {7067365378601411ull,-328}, {14015516649352134ull,-328}, {20963667920102857ull,-328}, {42046549948056402ull,-328},
{48994701218807125ull,-328}, {77025734517511393ull,-328}, {83973885788262116ull,-328}, {7007758324676067ull,-327}, {8373545757256074ull,-327}, {12590122162846783ull,-327}, {16806698568437492ull,-327}, {22389062406608208ull,-327},
{36404579055960342ull,-327}, {46203519299721767ull,-327}, {79816916436596751ull,-327}, {95198220518528892ull,-327}, {99414796924119601ull,-327}, {5315167057047249ull,-326}, {8403349284218746ull,-326}, {9234743154551819ull,-326},
{16242501479227886ull,-326}, {18202289527980171ull,-326}, {20162077576732456ull,-326}, {54606868583940513ull,-326}, {56566656632692798ull,-326}, {92971235688653140ull,-326}, {94931023737405425ull,-326}, {3637477552899767ull,-325},
{6945377910362572ull,-325}, {9297123568865314ull,-325}, {9689081178615771ull,-325}, {14000614885870798ull,-325}, {27499413096845485ull,-325}, {28283328316346399ull,-325}, {46877575454077027ull,-325}, {65863780201558112ull,-325},
{84458027339288740ull,-325}, {6743161064055994ull,-324}, {8445802733928874ull,-324}, {12243043683425091ull,-324}, {21540167252290405ull,-324}, {29134649151282839ull,-324}, {32931890100779056ull,-324}, {62066539252061895ull,-324},
{65863780201558112ull,-324}, {93755150908154054ull,-324}, {94147108517904511ull,-324}, {8105274399954298ull,-323}, {8445802733928874ull,-323}, {12413307850412379ull,-323}, {16210548799908596ull,-323}, {20348318083379389ull,-323},
{24826615700824758ull,-323}, {49653231401649516ull,-323}, {61726010918087319ull,-323}, {78277088051970491ull,-323}, {81393272333517556ull,-323}, {3797240949496217ull,-322}, {7029064854322760ull,-322}, {7594481898992434ull,-322},
{14058129708645520ull,-322}, {14565726941675455ull,-322}, {28116259417291040ull,-322}, {43928460071585321ull,-322}, {45174933784204147ull,-322}, {65581071679223275ull,-322}, {90349867568408294ull,-322}, {8536397271793299ull,-321},
{9782870984412125ull,-321}, {13116214335844655ull,-321}, {19565741968824250ull,-321}, {26232428671689310ull,-321}, {40595116720152791ull,-321}, {52464857343378620ull,-321}, {81190233440305582ull,-321}, {92625655923760481ull,-321},
{98480187053777645ull,-321}, {5246485734337862ull,-320}, {6536391260933781ull,-320}, {10492971468675724ull,-320}, {11782876995271643ull,-320}, {22275848463947367ull,-320}, {23565753990543286ull,-320}, {44551696927894734ull,-320},
{45841602454490653ull,-320}, {90393299382385387ull,-320}, {91683204908981306ull,-320}, {3681226376831922ull,-319}, {4971131903427841ull,-319}, {8652358280259763ull,-319}, {9942263806855682ull,-319}, {17304716560519526ull,-319},
{18594622087115445ull,-319}, {35899338647634971ull,-319}, {37189244174230890ull,-319}, {71798677295269942ull,-319}, {74378488348461780ull,-319}, {6147943308250259ull,-318}, {7437848834846178ull,-318}, {12295886616500518ull,-318},
{14875697669692356ull,-318}, {29751395339384712ull,-318}, {40757376429289311ull,-318}, {59502790678769424ull,-318}, {70508771768674023ull,-318}, {96993619177729650ull,-318}, {98367092932004144ull,-318}, {5812931692449493ull,-317},
{7119550864581127ull,-317}, {9699361917772965ull,-317}, {14239101729162254ull,-317}, {19398723835545930ull,-317}, {30404704925450529ull,-317}, {49803428760996459ull,-317}, {60809409850901058ull,-317}, {80894870563584235ull,-317},
{99606857521992918ull,-317}, {3879744767109186ull,-316}, {7126236322795413ull,-316}, {7759489534218372ull,-316}, {13592477601310723ull,-316}, {15518979068436744ull,-316}, {26524960158341343ull,-316}, {31037958136873488ull,-316},
{42043939226778087ull,-316}, {73081897363651575ull,-316}, {84087878453556174ull,-316}, {6735587662798780ull,-315}, {10345986045624496ull,-315}, {14616379472730315ull,-315}, {19546767944116237ull,-315}, {29232758945460630ull,-315},
{45169128506751151ull,-315}, {58465517890921260ull,-315}, {86553072689249135ull,-315}, {95811194364879224ull,-315}, {99403401691996293ull,-315}, {5388470130239024ull,-314}, {5846551789092126ull,-314}, {11693103578184252ull,-314},
{17310614537849827ull,-314}, {23386207156368504ull,-314}, {34621229075699654ull,-314}, {46772414312737008ull,-314}, {69242458151399308ull,-314}, {85178827712689829ull,-314}, {93544828625474016ull,-314}, {5410172085438664ull,-313},
{5617510959665575ull,-313}, {11027683045104239ull,-313}, {11235021919331150ull,-313}, {22262704964435389ull,-313}, {22470043838662300ull,-313}, {35744731267632769ull,-313}, {44525409928870778ull,-313}, {71489462535265538ull,-313},
{80270141196503547ull,-313}, {8988017535464920ull,-312}, {10578282168330993ull,-312}, {17976035070929840ull,-312}, {19566299703795913ull,-312}, {30351920746353817ull,-312}, {39132599407591826ull,-312}, {60703841492707634ull,-312},
{83865348210689515ull,-312}, {98246176267433387ull,-312}, {99007085403391816ull,-312}, {7190414028371936ull,-311}, {9582655613765967ull,-311}, {14380828056743872ull,-311}, {16773069642137903ull,-311}, {31153897698881775ull,-311},
{33546139284275806ull,-311}, {43930771850569731ull,-311}, {67092278568551612ull,-311}, {87861543701139462ull,-311}, {97430510042715586ull,-311}, {4469168098652816ull,-310}, {6230779539776355ull,-310}, {10699947638429171ull,-310},
{12461559079552710ull,-310}, {21399895276858342ull,-310}, {24923118159105420ull,-310}, {39776918824052161ull,-310}, {52869108047875363ull,-310}, {69484520153945643ull,-310}, {79553837648104322ull,-310}, {4884553401304573ull,-309},
{4984623631821084ull,-309}, {6546094611911601ull,-309}, {9969247263642168ull,-309}, {19938494527284336ull,-309}, {23161506717981881ull,-309}, {43100001245266217ull,-309}, {46323013435963762ull,-309}, {62838355311517531ull,-309},
{86200002490532434ull,-309}, {5401141021189537ull,-308}, {9424715056019170ull,-308}, {10958241448371653ull,-308}, {18849430112038340ull,-308}, {27229261807851957ull,-308}, {29807671560409993ull,-308}, {54458523615703914ull,-308},
{59615343120819986ull,-308}, {82976990299834889ull,-308}, {93290629310067033ull,-308}, {4414488460547177ull,-307}, {6992898213105213ull,-307}, {8828976921094354ull,-307}, {13985796426210426ull,-307}, {17657953842188708ull,-307},
{31096876436689011ull,-307}, {42504263110341401ull,-307}, {48754830278877719ull,-307}, {71569603626182499ull,-307}, {85008526220682802ull,-307}, {3719148419923275ull,-306}, {5406760918998637ull,-306}, {7438296839846550ull,-306},
{12251192923190071ull,-306}, {16814147592651027ull,-306}, {19689489763036621ull,-306}, {25940056931572939ull,-306}, {47067217779802357ull,-306}, {65319036457646181ull,-306}, {80695512965104411ull,-306}, {6350543734089344ull,-305},
{9025932773368886ull,-305}, {10763533555220761ull,-305}, {18051865546737772ull,-305}, {31890694403450179ull,-305}, {38041285006433471ull,-305}, {63781388806900358ull,-305}, {76082570012866942ull,-305}, {86446197305875599ull,-305},
{94534341821816818ull,-305}, {4760509977501792ull,-304}, {7540671228464792ull,-304}, {8678412616998511ull,-304}, {15923949794934657ull,-304}, {27130184425948387ull,-304}, {28815399101958533ull,-304}, {42801794983935263ull,-304},
{54260368851896774ull,-304}, {70774586747888723ull,-304}, {93691734483811745ull,-304}, {4751951014785619ull,-303}, {6437165690795765ull,-303}, {9234444867191111ull,-303}, {9503902029571238ull,-303}, {18738346896762349ull,-303},
{26018119925563187ull,-303}, {37207236631144571ull,-303}, {52305697013506501ull,-303}, {59585470042307339ull,-303}, {89782390807031199ull,-303}, {7549230191180965ull,-302}, {10299465105273224ull,-302}, {15098460382361930ull,-302},
{17848695296454189ull,-302}, {32947155678816119ull,-302}, {35697390592908378ull,-302}, {68644546271724497ull,-302}, {71394781185816756ull,-302}, {86223784405798559ull,-302}, {98785803746157368ull,-302}, {6039384152944772ull,-301},
{6923912388677574ull,-301}, {12078768305889544ull,-301}, {14829003219981803ull,-301}, {26907771525871347ull,-301}, {29658006439963606ull,-301}, {53815543051742694ull,-301}, {56565777965834953ull,-301}, {84454727934332955ull,-301},
{89955197762517473ull,-301}, {3731413356718914ull,-300}, {6481648270811173ull,-300}, {10213061627530087ull,-300}, {12963296541622346ull,-300}, {16890945586866591ull,-300}, {25926593083244692ull,-300}, {33781891173733182ull,-300},
{49887894006498449ull,-300}, {76599429843844465ull,-300}, {90740140516618797ull,-300}, {5500469828184518ull,-299}, {10605533004580749ull,-299}, {14533769104772519ull,-299}, {15319885968768893ull,-299}, {30639771937537786ull,-299},
{38103185705923139ull,-299}, {68742957643460925ull,-299}, {76206371411846278ull,-299}, {92705432676609732ull,-299}, {97024378989009589ull,-299}, {4320824888231937ull,-298}, {8249530632381727ull,-298}, {8641649776463874ull,-298},
{13748591528692185ull,-298}, {22390241305156059ull,-298}, {27497183057384370ull,-298}, {49887424362540429ull,-298}, {54994366114768740ull,-298}, {75028135403767757ull,-298}, {99774848725080858ull,-298}, {4320449173065521ull,-297},
{5499436611476874ull,-297}, {9819885784542395ull,-297}, {10998873222953748ull,-297}, {20818759007496143ull,-297}, {21997746445907496ull,-297}, {34960596825769723ull,-297}, {43995492891814992ull,-297}, {69921193651539446ull,-297},
{87990985783629984ull,-297}, {5656735127309432ull,-296}, {10134482816207511ull,-296}, {11313470254618864ull,-296}, {20268965632415022ull,-296}, {22626940509237728ull,-296}, {42816505453403639ull,-296}, {45253881018475456ull,-296},
{87911585095380873ull,-296}, {88229187848377317ull,-296}, {98351647779259516ull,-296}, {4715949753645412ull,-295}, {8499780540081439ull,-295}, {8976184669576105ull,-295}, {17455275917877597ull,-295}, {17952369339152210ull,-295},
{34910551835755194ull,-295}, {35449023840589701ull,-295}, {69365388833795669ull,-295}, {70635799845781445ull,-295}, {99539301624125504ull,-295}, {3590473867830442ull,-294}, {6890967399608095ull,-294}, {7180947735660884ull,-294},
{13326219961501471ull,-294}, {14127159969156289ull,-294}, {26652439923002942ull,-294}, {49893896646453611ull,-294}, {51716755997312487ull,-294}, {58096763725318553ull,-294}, {99787793292907222ull,-294}, {6380007728006066ull,-293},
{9614207459118947ull,-293}, {12348496485407261ull,-293}, {19228414918237894ull,-293}, {24696992970814522ull,-293}, {38456829836475788ull,-293}, {52628185672741925ull,-293}, {76913659672951576ull,-293}, {92261620387306239ull,-293},
{98787971883258088ull,-293}, {5750846128627429ull,-292}, {8985045859740310ull,-292}, {10525637134548385ull,-292}, {17970091719480620ull,-292}, {21051274269096770ull,-292}, {32705983707848359ull,-292}, {42102548538193540ull,-292},
{62177767684583837ull,-292}, {84205097076387080ull,-292}, {87439296807499961ull,-292}, {4210254853819354ull,-291}, {7188036687792248ull,-291}, {8420509707638708ull,-291}, {14376073375584496ull,-291}, {16841019415277416ull,-291},
{25517947020056111ull,-291}, {33682038830554832ull,-291}, {42358966435333527ull,-291}, {67364077661109664ull,-291}, {76041005265888359ull,-291}, {6704970773024359ull,-290}, {10648884436533031ull,-290}, {11674556025092979ull,-290},
{23033154394021801ull,-290}, {23349112050185958ull,-290}, {46066308788043602ull,-290}, {46855409065804953ull,-290}, {92132617576087204ull,-290}, {93710818131609906ull,-290}, {93868003097042943ull,-290}, {5711053722610635ull,-289},
{8172030445035277ull,-289}, {12147698646690173ull,-289}, {16344060890070554ull,-289}, {21550217452937771ull,-289}, {32688121780141108ull,-289}, {43100434905875542ull,-289}, {54238339233078879ull,-289}, {86200869811751084ull,-289},
{97338774138954421ull,-289}, {4019807009999993ull,-288}, {7118097317203344ull,-288}, {7490578051911471ull,-288}, {14785230602495203ull,-288}, {23922916558672219ull,-288}, {25020988494849249ull,-288}, {36707928790141101ull,-288},
{47845833117344438ull,-288}, {60081809380724805ull,-288}, {73415857580282202ull,-288}, {5929588455355962ull,-287}, {11796747488909555ull,-287}, {12016361876144961ull,-287}, {12894819425086585ull,-287}, {25789638850173170ull,-287},
{36488314402905695ull,-287}, {62277953253078865ull,-287}, {72976628805811390ull,-287}, {96130895009159688ull,-287}, {99487540239493147ull,-287}, {5157927770034634ull,-286}, {7297662880581139ull,-286}, {12455590650615773ull,-286},
{14595325761162278ull,-286}, {27050916411778051ull,-286}, {29190651522324556ull,-286}, {54101832823556102ull,-286}, {58381303044649112ull,-286}, {77638919039567657ull,-286}, {99644725204926184ull,-286}, {4189216202200922ull,-285},
{7365353394750205ull,-285}, {8130993420076719ull,-285}, {14730706789500410ull,-285}, {16261986840153438ull,-285}, {29708852563325945ull,-285}, {56241567934102607ull,-285}, {59665144110977015ull,-285}, {61376932199414219ull,-285},
{98788831160707582ull,-285}, {8509452645320995ull,-284}, {11933028822195403ull,-284}, {17018905290641990ull,-284}, {23866057644390806ull,-284}, {34037810581283980ull,-284}, {47732115288781612ull,-284}, {57854380428809761ull,-284},
{95464230577563224ull,-284}, {98541392176382457ull,-284}, {99333196926222857ull,-284}, {6807562116256796ull,-283}, {6847152353748816ull,-283}, {13615124232513592ull,-283}, {17048597968761005ull,-283}, {30663722201274597ull,-283},
{34097195937522010ull,-283}, {44318436671280209ull,-283}, {61327444402549194ull,-283}, {88636873342560418ull,-283}, {91911986128839751ull,-283}, {6787766997510786ull,-282}, {6819439187504402ull,-282}, {10173732448767775ull,-282},
{13638878375008804ull,-282}, {27277756750017608ull,-282}, {30679558296271405ull,-282}, {57957315046289013ull,-282}, {61359116592542810ull,-282}, {64380851858873215ull,-282}, {98905622361309041ull,-282}, {8870021772254765ull,-281},
{12271823318508562ull,-281}, {21141845090763327ull,-281}, {24543646637017124ull,-281}, {42283690181526654ull,-281}, {49087293274034248ull,-281}, {84567380363053308ull,-281}, {98174586548068496ull,-281}, {99246290121076686ull,-281},
{99925107833935810ull,-281}, {6511188767211376ull,-280}, {7096017417803812ull,-280}, {14192034835607624ull,-280}, {17301422056565203ull,-280}, {28384069671215248ull,-280}, {31493456892172827ull,-280}, {59877526563388075ull,-280},
{62986913784345654ull,-280}, {82413309728678963ull,-280}, {97989342580073097ull,-280}, {4433059045860018ull,-279}, {7542446266817597ull,-279}, {11975505312677615ull,-279}, {15084892533635194ull,-279}, {23951010625355230ull,-279},
{27060397846312809ull,-279}, {32971143240792833ull,-279}, {47902021250710460ull,-279}, {65942286481585666ull,-279}, {95804042501420920ull,-279}, {3669658855662068ull,-278}, {4790202125071046ull,-278}, {7339317711324136ull,-278},
{9580404250142092ull,-278}, {19160808500284184ull,-278}, {23390738990650741ull,-278}, {38321617000568368ull,-278}, {46781477981301482ull,-278}, {76643234001136736ull,-278}, {93562955962602964ull,-278}, {5087555287082364ull,-277},
{10116917080952250ull,-277}, {16970170478920099ull,-277}, {17071067513827841ull,-277}, {25530928494560955ull,-277}, {33940340957840198ull,-277}, {42450650456027183ull,-277}, {51061856989121910ull,-277}, {85708477191316302ull,-277},
{93512507445149093ull,-277}, {5106185698912191ull,-276}, {6707350563641846ull,-276}, {10212371397824382ull,-276}, {15217660061828831ull,-276}, {20424742795648764ull,-276}, {25430031459653213ull,-276}, {40849485591297528ull,-276},
{45854774255301977ull,-276}, {81698971182595056ull,-276}, {86704259846599505ull,-276}, {4364822718112587ull,-275}, {5527315706765864ull,-275}, {8611206533094727ull,-275}, {11173070316662175ull,-275}, {17340851969319901ull,-275},
{22227701730193903ull,-275}, {34563265035509355ull,-275}, {44573842363518253ull,-275}, {69244968974149157ull,-275}, {89147684727036506ull,-275}, {6912653007101871ull,-274}, {8938456253329740ull,-274}, {13825306014203742ull,-274},
{17876912506659480ull,-274}, {27769050931537931ull,-274}, {35635386110188513ull,-274}, {47553327781294833ull,-274}, {71270772220377026ull,-274}, {87121881480808637ull,-274}, {95106655562589666ull,-274}, {5482746844429318ull,-273},
{7150765002663792ull,-273}, {9415914433754609ull,-273}, {15851109260431611ull,-273}, {23717444439082193ull,-273}, {31702218520863222ull,-273}, {36350956286175303ull,-273}, {63404437041726444ull,-273}, {77587528143923581ull,-273},
{82473143715496556ull,-273}, {3503825483733217ull,-272}, {6602983993941271ull,-272}, {7007650967466434ull,-272}, {13205967987882542ull,-272}, {14015301934932868ull,-272}, {26411935975765084ull,-272}, {27053480755551141ull,-272},
{52823871951530168ull,-272}, {54106961511102282ull,-272}, {99785005217172766ull,-272}, {5387006639693413ull,-271}, {10442387812203026ull,-271}, {10774013279386826ull,-271}, {20884775624406052ull,-271}, {21352601935910733ull,-271},
{41769551248812104ull,-271}, {42705203871821466ull,-271}, {83343677874761289ull,-271}, {85410407743642932ull,-271}, {95552793027420062ull,-271}, {4387775160899898ull,-270}, {8510249948052756ull,-270}, {8580125698936877ull,-270},
{16825075273242593ull,-270}, {17160251397873754ull,-270}, {33454725923622267ull,-270}, {34199309001010825ull,-270}, {66909451847244534ull,-270}, {68398618002021650ull,-270}, {98763665373900331ull,-270}, {3588389977865086ull,-269},
{6769115033869621ull,-269}, {6839861800202165ull,-269}, {13538230067739242ull,-269}, {13679723600404330ull,-269}, {26631679799554815ull,-269}, {27804227536732329ull,-269}, {29367624519635681ull,-269}, {55608455073464658ull,-269},
{87321175067455367ull,-269}, {6498883697088477ull,-268}, {10652671919821926ull,-268}, {15588158634007051ull,-268}, {18714952599813755ull,-268}, {25459132062377301ull,-268}, {37429905199627510ull,-268}, {51454666850731209ull,-268},
{74859810399255020ull,-268}, {90938560564212209ull,-268}, {92011366016165423ull,-268}, {6127982908407499ull,-267}, {7485981039925502ull,-267}, {14971962079851004ull,-267}, {17151555616910403ull,-267}, {32123517696761407ull,-267},
{34303111233820806ull,-267}, {43557888108035009ull,-267}, {68606222467641612ull,-267}, {70785816004701011ull,-267}, {87115776216070018ull,-267}, {5116947417116642ull,-266}, {5338305034137879ull,-266}, {10233894834233284ull,-266},
{10455252451254521ull,-266}, {20689147285487805ull,-266}, {20910504902509042ull,-266}, {41378294570975610ull,-266}, {49875311102191969ull,-266}, {74702287844777335ull,-266}, {99750622204383938ull,-266}, {6664798654760345ull,-265},
{8275658914195122ull,-265}, {13329597309520690ull,-265}, {14940457568955467ull,-265}, {26659194619041380ull,-265}, {29880915137910934ull,-265}, {59761830275821868ull,-265}, {84810164635428471ull,-265}, {93749896400687304ull,-265},
{95200755983386962ull,-265}, {5331838923808276ull,-264}, {8553559442677830ull,-264}, {10663677847616552ull,-264}, {17107118885355660ull,-264}, {21327355695233104ull,-264}, {34214237770711320ull,-264}, {42654711390466208ull,-264},
{66704529459064921ull,-264}, {85309422780932416ull,-264}, {87033368863290135ull,-264}, {3920681922575077ull,-263}, {6842847554142264ull,-263}, {10364122960314185ull,-263}, {11162935993120497ull,-263}, {17406673772658027ull,-263},
{25647444134211337ull,-263}, {31491775397345711ull,-263}, {54616460416393017ull,-263}, {59661978646721079ull,-263}, {99268204388875005ull,-263}, {8266034364902329ull,-262}, {8291298368251348ull,-262}, {13261024588532353ull,-262},
{19853640877775001ull,-262}, {23200477029094363ull,-262}, {43028853903520345ull,-262}, {46400954058188726ull,-262}, {89480335968407109ull,-262}, {92801908116377452ull,-262}, {99242940385525986ull,-262}, {7297353124195147ull,-261},
{8605770780704069ull,-261}, {12581551756928873ull,-261}, {14594706248390294ull,-261}, {20533113709378481ull,-261}, {33819402301259853ull,-261}, {41066227418756962ull,-261}, {72268794406998971ull,-261}, {77502465033034659ull,-261},
{98237690769205292ull,-261}, {4468831234809550ull,-260}, {6643144295940686ull,-260}, {8011664508723247ull,-260}, {14212286552777225ull,-260}, {15097331056550641ull,-260}, {28424573105554450ull,-260}, {30194662113101282ull,-260},
{55923148250213047ull,-260}, {59463326265306711ull,-260}, {95178333204300740ull,-260}, {6224132014799427ull,-259}, {11369829242221780ull,-259}, {12448264029598854ull,-259}, {22739658484443560ull,-259}, {23970530098301855ull,-259},
{44553319007991267ull,-259}, {47015062235707857ull,-259}, {89106638015982534ull,-259}, {95377789972272859ull,-259}, {98577451394921710ull,-259}, {4794106019660371ull,-258}, {9095863393777424ull,-258}, {9588212039320742ull,-258},
{18191726787554848ull,-258}, {19445957178812913ull,-258}, {36383453575109696ull,-258}, {66941386284672845ull,-258}, {70645378128256257ull,-258}, {76201365893631375ull,-258}, {96842854133511570ull,-258}, {4629989804479265ull,-257},
{6906291530663598ull,-257}, {9259979608958530ull,-257}, {13388277256934569ull,-257}, {15240273178726275ull,-257}, {26776554513869138ull,-257}, {42016827692595413ull,-257}, {53553109027738276ull,-257}, {84033655385190826ull,-257},
{95569936720333689ull,-257}, {6096109271490510ull,-256}, {11728955736089960ull,-256}, {12192218542981020ull,-256}, {23728499878123883ull,-256}, {24384437085962040ull,-256}, {35920718421104903ull,-256}, {48768874171924080ull,-256},
{71841436842209806ull,-256}, {97537748343848160ull,-256}, {98537966739537010ull,-256}, {4876887417192408ull,-255}, {6659393917950455ull,-255}, {9753774834384816ull,-255}, {11536281335142863ull,-255}, {19507549668769632ull,-255},
{21290056169527679ull,-255}, {39015099337539264ull,-255}, {42580112339055358ull,-255}, {78030198675078528ull,-255}, {85160224678110716ull,-255}, {5327515134360364ull,-254}, {7070012899290857ull,-254}, {10655030268720728ull,-254},
{12397528033651221ull,-254}, {21310060537441456ull,-254}, {23052558302371949ull,-254}, {44362618839813405ull,-254}, {46105116604743898ull,-254}, {72722687908631941ull,-254}, {88725237679626810ull,-254}, {6717512472722003ull,-253},
{8872523767962681ull,-253}, {13435024945444006ull,-253}, {21642556596096533ull,-253}, {43285113192193066ull,-253}, {47182622252364237ull,-253}, {90467735444557303ull,-253}, {94365244504728474ull,-253}, {98490379807830324ull,-253},
{99685181443209706ull,-253}, {7712515414280305ull,-252}, {7877520826404379ull,-252}, {15755041652808758ull,-252}, {19652550712979929ull,-252}, {31510083305617516ull,-252}, {39305101425959858ull,-252}, {63020166611235032ull,-252},
{78610202851919716ull,-252}, {86405220972262058ull,-252}, {94860260741100696ull,-252}, {6170012331424244ull,-251}, {7147520638007367ull,-251}, {10067521391595415ull,-251}, {14295041276014734ull,-251}, {17862539511937757ull,-251},
{30862585823282541ull,-251}, {33452575752622441ull,-251}, {61725171646565082ull,-251}, {64632648233991809ull,-251}, {98452807309346361ull,-251}, {4027008556638166ull,-250}, {5263515856155279ull,-250}, {8054017113276332ull,-250},
{10527031712310558ull,-250}, {13835530955299591ull,-250}, {23326566695874189ull,-250}, {25398558639346109ull,-250}, {48925636663001451ull,-250}, {50797117278692218ull,-250}, {97851273326002902ull,-250}, {5988713036370451ull,-249},
{8876126024099061ull,-249}, {11977426072740902ull,-249}, {20024755319451195ull,-249}, {21682348874228731ull,-249}, {40049510638902390ull,-249}, {57186852970624975ull,-249}, {61731859513131121ull,-249}, {86916531091563999ull,-249},
{96006544176576291ull,-249}, {5699971737597590ull,-248}, {8009902127780478ull,-248}, {11437370594124995ull,-248}, {15982377136631141ull,-248}, {22874741188249990ull,-248}, {32002181392192097ull,-248}, {54876922580442087ull,-248},
{64004362784384194ull,-248}, {82296670311198223ull,-248}, {91498964752999960ull,-248}, {4567462813864035ull,-247}, {4574948237649998ull,-247}, {9134925627728070ull,-247}, {9149896475299996ull,-247}, {18269851255456140ull,-247},
{18299792950599992ull,-247}, {27397291459398247ull,-247}, {45741996952714017ull,-247}, {54794582918796494ull,-247}, {91483993905428034ull,-247}, {5503411647994731ull,-246}, {7307940502182456ull,-246}, {12811352150177187ull,-246},
{14615881004364912ull,-246}, {29231762008729824ull,-246}, {34765115351868407ull,-246}, {49321112965945615ull,-246}, {78672641755250847ull,-246}, {84205995098389430ull,-246}, {98642225931891230ull,-246}, {4691775020888085ull,-245},
{8059693739001398ull,-245}, {8420599509838943ull,-245}, {9864222593189123ull,-245}, {16841199019677886ull,-245}, {27427233154542099ull,-245}, {33682398039355772ull,-245}, {62553254277248051ull,-245}, {67364796078711544ull,-245},
{94311356681840690ull,-245}, {3753420016710468ull,-244}, {6255164884813673ull,-244}, {8276237201503925ull,-244}, {9431135668184069ull,-244}, {16552474403007850ull,-244}, {18862271336368138ull,-244}, {27715957771212135ull,-244},
{43113533707539841ull,-244}, {60820906577227835ull,-244}, {80838076380276117ull,-244}, {5543191554242427ull,-243}, {6620989761203140ull,-243}, {11086383108484854ull,-243}, {12164181315445567ull,-243}, {23250564423930421ull,-243},
{24328362630891134ull,-243}, {46501128847860842ull,-243}, {47578927054821555ull,-243}, {93002257695721684ull,-243}, {95157854109643110ull,-243}, {5296791808962512ull,-242}, {8345787978162545ull,-242}, {9515785410964311ull,-242},
{16691575956325090ull,-242}, {19031570821928622ull,-242}, {32674150609053679ull,-242}, {38063141643857244ull,-242}, {56016914258825153ull,-242}, {76126283287714488ull,-242}, {94080055902682397ull,-242}, {4810352990673595ull,-241},
{5099672012738580ull,-241}, {7754428589490749ull,-241}, {12065621417333601ull,-241}, {24131242834667202ull,-241}, {25997520226523643ull,-241}, {50128763061190845ull,-241}, {51995040453047286ull,-241}, {66216258284302313ull,-241},
{69948813068015195ull,-241}, {5830287393221311ull,-240}, {10025752612238169ull,-240}, {13989762613603039ull,-240}, {20051505224476338ull,-240}, {27979525227206078ull,-240}, {40103010448952676ull,-240}, {55959050454412156ull,-240},
{80206020897905352ull,-240}, {86716038293442090ull,-240}, {97942973945861810ull,-240}, {6061742610873299ull,-239}, {6623089393494285ull,-239}, {12123485221746598ull,-239}, {15575366614148987ull,-239}, {24246970443493196ull,-239},
{31150733228297974ull,-239}, {46164753059825975ull,-239}, {62301466456595948ull,-239}, {90000318292491533ull,-239}, {92329506119651950ull,-239}, {3934479097169767ull,-238}, {5298471514795428ull,-238}, {9232950611965195ull,-238},
{10596943029590856ull,-238}, {18465901223930390ull,-238}, {23523073886342129ull,-238}, {36931802447860780ull,-238}, {41988975110272519ull,-238}, {73863604895721560ull,-238}, {93693498537277611ull,-238}, {7386360489572156ull,-237},
{7466119891190337ull,-237}, {14772720979144312ull,-237}, {14852480380762493ull,-237}, {29545441958288624ull,-237}, {29625201359906805ull,-237}, {59090883916577248ull,-237}, {59170643318195429ull,-237}, {88552300475057055ull,-237},
{99518067854500142ull,-237}, {5845280870363180ull,-236}, {5925040271981361ull,-236}, {11770321142344541ull,-236}, {11850080543962722ull,-236}, {23620401686307263ull,-236}, {23700161087925444ull,-236}, {47240803372614526ull,-236},
{63120670166183003ull,-236}, {78920777558133299ull,-236}, {94481606745229052ull,-236}, {4676224696290544ull,-235}, {4755984097908725ull,-235}, {9352449392581088ull,-235}, {12656037793883873ull,-235}, {15720347990332115ull,-235},
{25312075587767746ull,-235}, {41032423578099861ull,-235}, {53608701970365553ull,-235}, {72473119558764091ull,-235}, {82064847156199722ull,-235}, {6288139196132846ull,-234}, {7609574556653960ull,-234}, {15219149113307920ull,-234},
{19525135268659095ull,-234}, {34744284381967015ull,-234}, {39050270537318190ull,-234}, {69488568763934030ull,-234}, {87692268672072011ull,-234}, {91224324810587084ull,-234}, {99630471851392255ull,-234}, {6948856876393403ull,-233},
{7810054107463638ull,-233}, {13897713752786806ull,-233}, {15620108214927276ull,-233}, {27795427505573612ull,-233}, {31240216429854552ull,-233}, {47721521875852063ull,-233}, {70349765995004265ull,-233}, {73794554919285205ull,-233},
{81663888054580366ull,-233}, {3789267816709034ull,-232}, {6835896458010879ull,-232}, {7578535633418068ull,-232}, {14069953199000853ull,-232}, {14758910983857041ull,-232}, {28139906398001706ull,-232}, {29517821967714082ull,-232},
{42898817381858747ull,-232}, {59035643935428164ull,-232}, {85797634763717494ull,-232}, {7948965191890980ull,-231}, {10784428387911551ull,-231}, {13380995414144665ull,-231}, {21568856775823102ull,-231}, {26761990828289330ull,-231},
{40302250355625633ull,-231}, {67064241183914963ull,-231}, {88473833846546427ull,-231}, {94781816691354121ull,-231}, {99178630177862159ull,-231}, {5352398165657866ull,-230}, {9194635349533355ull,-230}, {10704796331315732ull,-230},
{14547033515191221ull,-230}, {21409592662631464ull,-230}, {25251829846506953ull,-230}, {46661422509138417ull,-230}, {50503659693013906ull,-230}, {81426415931562001ull,-230}, {93322845018276834ull,-230}, {5855785159585325ull,-229},
{7355708279626684ull,-229}, {10869179375377879ull,-229}, {11711570319170650ull,-229}, {21738358750755758ull,-229}, {22580749694548529ull,-229}, {44319108445304287ull,-229}, {45161499389097058ull,-229}, {72426877211313847ull,-229},
{88638216890608574ull,-229}, {8526865311543749ull,-228}, {9369256255336520ull,-228}, {14148419064745661ull,-228}, {21643824069014877ull,-228}, {28296838129491322ull,-228}, {46192959696371591ull,-228}, {56593676258982644ull,-228},
{92385919392743182ull,-228}, {95755483167914266ull,-228}, {97732290292597609ull,-228}, {5078305314229897ull,-227}, {7983616872571734ull,-227}, {13061922186801631ull,-227}, {17896121566880269ull,-227}, {26123844373603262ull,-227},
{35792243133760538ull,-227}, {38697554692102375ull,-227}, {71584486267521076ull,-227}, {77395109384204750ull,-227}, {79323997205941551ull,-227}, {4453213746025932ull,-226}, {4834199380078638ull,-226}, {7739510938420475ull,-226},
{9668398760157276ull,-226}, {15479021876840950ull,-226}, {29791127200050511ull,-226}, {30958043753681900ull,-226}, {51461757827627841ull,-226}, {61916087507363800ull,-226}, {82419801581309741ull,-226}, {6191608750736380ull,-225},
{11835461822915009ull,-225}, {12383217501472760ull,-225}, {22980357574240493ull,-225}, {24766435002945520ull,-225}, {45270149076891461ull,-225}, {49532870005891040ull,-225}, {79943158081015189ull,-225}, {98136524941267697ull,-225},
{99065740011782080ull,-225}, {4953287000589104ull,-224}, {5091400214907009ull,-224}, {9906574001178208ull,-224}, {10182800429814018ull,-224}, {19813148002356416ull,-224}, {30134061646488339ull,-224}, {39626296004712832ull,-224},
{70036584079836981ull,-224}, {79252592009425664ull,-224}, {91230864225372447ull,-224}, {3922415286628502ull,-223}, {7724385214955309ull,-223}, {9878951358314627ull,-223}, {10099932501223275ull,-223}, {19757902716629254ull,-223},
{29968325789306853ull,-223}, {49726228505936107ull,-223}, {59936651578613706ull,-223}, {69705112365474009ull,-223}, {90125958510829207ull,-223}, {8079946000978620ull,-222}, {9768460786860303ull,-222}, {13587452644440965ull,-222},
{22109360931236881ull,-222}, {29747344646398205ull,-222}, {44218721862473762ull,-222}, {59494689292796410ull,-222}, {97763942225990531ull,-222}, {99679213443662636ull,-222}, {99724200005150960ull,-222}, {5949468929279641ull,-221},
{6463956800782896ull,-221}, {11898937858559282ull,-221}, {12927913601565792ull,-221}, {25855827203131584ull,-221}, {36211301447181101ull,-221}, {51711654406263168ull,-221}, {72422602894362202ull,-221}, {91009883082463799ull,-221},
{95191502868474256ull,-221}, {4321698120627342ull,-220}, {7680137312232591ull,-220}, {12001835432859933ull,-220}, {12825016027265141ull,-220}, {24003670865719866ull,-220}, {25650032054530282ull,-220}, {37240277190187611ull,-220},
{48007341731439732ull,-220}, {85247618921627343ull,-220}, {96014683462879464ull,-220}, {4471461935381890ull,-219}, {6117823124192306ull,-219}, {8942923870763780ull,-219}, {12413425730062537ull,-219}, {21356349600826317ull,-219},
{24826851460125074ull,-219}, {42712699201652634ull,-219}, {46183201060951391ull,-219}, {60420767461502269ull,-219}, {92366402121902782ull,-219}, {7012115511268684ull,-218}, {7154339096611024ull,-218}, {10695952748580951ull,-218},
{17636956467178465ull,-218}, {21391905497161902ull,-218}, {38886638378998027ull,-218}, {42783810994323804ull,-218}, {81386002202637151ull,-218}, {81954896544006511ull,-218}, {97742946401734556ull,-218}, {7054782586871386ull,-217},
{7168561455145258ull,-217}, {10724397465649419ull,-217}, {14109565173742772ull,-217}, {17836069486657741ull,-217}, {31831855792126641ull,-217}, {35672138973315482ull,-217}, {63663711584253282ull,-217}, {67731552501989867ull,-217},
{98425619611377788ull,-217}, {4198735891640670ull,-216}, {5012304075187987ull,-216}, {10024608150375974ull,-216}, {12010197227922437ull,-216}, {16436490856110851ull,-216}, {24020394455844874ull,-216}, {29260256267580605ull,-216},
{51653514356330845ull,-216}, {54907787090520113ull,-216}, {99694303268020593ull,-216}, {5852051253516121ull,-215}, {10330702871266169ull,-215}, {11704102507032242ull,-215}, {20661405742532338ull,-215}, {23408205014064484ull,-215},
{41322811485064676ull,-215}, {43203684583487871ull,-215}, {82645622970129352ull,-215}, {86407369166975742ull,-215}, {93036737047436764ull,-215}, {6096927030228277ull,-214}, {6849276269597555ull,-214}, {10085827094554013ull,-214},
{15806579505097651ull,-214}, {20171654189108026ull,-214}, {31613159010195302ull,-214}, {36730582933574955ull,-214}, {66839043465031701ull,-214}, {73461165867149910ull,-214}, {99956900953965559ull,-214}, {5479421015678044ull,-213},
{5600086713110841ull,-213}, {7346116586714991ull,-213}, {11200173426221682ull,-213}, {14692233173429982ull,-213}, {18546290012936673ull,-213}, {29384466346859964ull,-213}, {37092580025873346ull,-213}, {55397538643944425ull,-213},
{58768932693719928ull,-213}, {6069958385264468ull,-212}, {7225450889282194ull,-212}, {11079507728788885ull,-212}, {14450901778564388ull,-212}, {22159015457577770ull,-212}, {29962212598868827ull,-212}, {44318030915155540ull,-212},
{60984834239477705ull,-212}, {86515243746830978ull,-212}, {88636061830311080ull,-212}, {4431803091515554ull,-211}, {7765163756379987ull,-211}, {8863606183031108ull,-211}, {12196966847895541ull,-211}, {17727212366062216ull,-211},
{21060573030926649ull,-211}, {35454424732124432ull,-211}, {38787785396988865ull,-211}, {70908849464248864ull,-211}, {74242210129113297ull,-211}, {5545458872131103ull,-210}, {6636294621800010ull,-210}, {7757557079397773ull,-210},
{13272589243600020ull,-210}, {15515114158795546ull,-210}, {26545178487200040ull,-210}, {27696867652726659ull,-210}, {31030228317591092ull,-210}, {55393735305453318ull,-210}, {62060456635182184ull,-210}, {6872717796491105ull,-209},
{10618071394880016ull,-209}, {13745435592982210ull,-209}, {17490789191371121ull,-209}, {27490871185964420ull,-209}, {31236224784353331ull,-209}, {54981742371928840ull,-209}, {79551245826553305ull,-209}, {90787306621720038ull,-209},
{94982070350302036ull,-209}, {5498174237192884ull,-208}, {8074980743045813ull,-208}, {10996348474385768ull,-208}, {15910249165310661ull,-208}, {26906597639696429ull,-208}, {31820498330621322ull,-208}, {58727095970317751ull,-208},
{63640996661242644ull,-208}, {74187935005435325ull,-208}, {97798589176935930ull,-208}, {3535655788976789ull,-207}, {7011282555215892ull,-207}, {9779858917693593ull,-207}, {9875743846005979ull,-207}, {14837587001087065ull,-207},
{24473618526312079ull,-207}, {48947237052624158ull,-207}, {53861137743549051ull,-207}, {63880708982023609ull,-207}, {97894474105248316ull,-207}, {5935034800434826ull,-206}, {8806667272339853ull,-206}, {14741702072774679ull,-206},
{17613334544679706ull,-206}, {32355036617454385ull,-206}, {35226669089359412ull,-206}, {67581705706813797ull,-206}, {70453338178718824ull,-206}, {91000590021689630ull,-206}, {97832189278862243ull,-206}, {5985845737036995ull,-205},
{6471007323490877ull,-205}, {12942014646981754ull,-205}, {15813647118886781ull,-205}, {25884029293963508ull,-205}, {28755661765868535ull,-205}, {54639691059832043ull,-205}, {57511323531737070ull,-205}, {73810132237077733ull,-205},
{97792852232043978ull,-205}, {5751132353173707ull,-204}, {6713588116717818ull,-204}, {8630632234442387ull,-204}, {11502264706347414ull,-204}, {23004529412694828ull,-204}, {27801073411688077ull,-204}, {46009058825389656ull,-204},
{50805602824382905ull,-204}, {66141955766179457ull,-204}, {75735043764165955ull,-204}, {10161120564876581ull,-203}, {10539808942803303ull,-203}, {15904385508686635ull,-203}, {20322241129753162ull,-203}, {40644482259506324ull,-203},
{45819714636426295ull,-203}, {81288964519012648ull,-203}, {91639429272852590ull,-203}, {94416126468158092ull,-203}, {96814661649772561ull,-203}, {6790899274175893ull,-202}, {9163942927285259ull,-202}, {10779609824541181ull,-202},
{18327885854570518ull,-202}, {29107495679111699ull,-202}, {36655771709141036ull,-202}, {45062337880572851ull,-202}, {73311543418282072ull,-202}, {76972022283495155ull,-202}, {94012472925961956ull,-202}, {3923064213334847ull,-201},
{6987838285267216ull,-201}, {12031777988126305ull,-201}, {14273528967174789ull,-201}, {15394404456699031ull,-201}, {24063555976252610ull,-201}, {39457960432951641ull,-201}, {48127111952505220ull,-201}, {61279765430155767ull,-201},
{78915920865903282ull,-201}, {8010733045246471ull,-200}, {9625422390501044ull,-200}, {19250844781002088ull,-200}, {22778075868151591ull,-200}, {38501689562004176ull,-200}, {42028920649153679ull,-200}, {80530610211157855ull,-200},
{84057841298307358ull,-200}, {95235239353036581ull,-200}, {97571060853624656ull,-200}, {6289445477541034ull,-199}, {7819478871056978ull,-199}, {12111726654964453ull,-199}, {16106122042231571ull,-199}, {24690617610046521ull,-199},
{32212244084463142ull,-199}, {42793937345911651ull,-199}, {64424488168926284ull,-199}, {79000576817641911ull,-199}, {85587874691823302ull,-199}, {3807529667220072ull,-198}, {7498408880672250ull,-198}, {14202357208621535ull,-198},
{14389222928668581ull,-198}, {21443685102967587ull,-198}, {28778445857337162ull,-198}, {35926340891659691ull,-198}, {42887370205935174ull,-198}, {78813711097594865ull,-198}, {85774740411870348ull,-198}, {7334760754369575ull,-197},
{11361885766897228ull,-197}, {15762742219518973ull,-197}, {22723771533794456ull,-197}, {31525484439037946ull,-197}, {44354322356809089ull,-197}, {75879806795847035ull,-197}, {88708644713618178ull,-197}, {97968009887463119ull,-197},
{98547631110636585ull,-197}, {5867808603495660ull,-196}, {9308152755673747ull,-196}, {10481714476372879ull,-196}, {15175961359169407ull,-196}, {30351922718338814ull,-196}, {38486513753313429ull,-196}, {60703845436677628ull,-196},
{68838436471652243ull,-196}, {78226930237245299ull,-196}, {94496112307194529ull,-196}, {5067262359173010ull,-195}, {6321165089791451ull,-195}, {8507606511351097ull,-195}, {14269248386577825ull,-195}, {17896100276944153ull,-195},
{28538496773155650ull,-195}, {39926924222120111ull,-195}, {46434597050099803ull,-195}, {79853848444240222ull,-195}, {92869194100199606ull,-195}, {10588453975615899ull,-194}, {11415398709262260ull,-194}, {21176907951231798ull,-194},
{22003852684878159ull,-194}, {43180760636109957ull,-194}, {44007705369756318ull,-194}, {57849995759362063ull,-194}, {86361521272219914ull,-194}, {98765692276915329ull,-194}, {99161096845796906ull,-194}, {8305374233763447ull,-193},
{9132318967409808ull,-193}, {11900777045330957ull,-193}, {16610748467526894ull,-193}, {23801554090661914ull,-193}, {28511525512857851ull,-193}, {52313079603519765ull,-193}, {57023051025715702ull,-193}, {83880687071280831ull,-193},
{95206216362647656ull,-193}, {4098755031215294ull,-192}, {6363860889488659ull,-192}, {8197510062430588ull,-192}, {10462615920703953ull,-192}, {18660125983134541ull,-192}, {20925231841407906ull,-192}, {39585357824542447ull,-192},
{41850463682815812ull,-192}, {81435821507358259ull,-192}, {83700927365631624ull,-192}, {3444409667588177ull,-191}, {6069034937159956ull,-191}, {6435798163521681ull,-191}, {12591091045974585ull,-191}, {12871596327043362ull,-191},
{25182182091949170ull,-191}, {25822206784316361ull,-191}, {50364364183898340ull,-191}, {53535512385481051ull,-191}, {55347597072099743ull,-191}, {5889275231510749ull,-190}, {10072872836779668ull,-190}, {11431936351743687ull,-190},
{20145745673559336ull,-190}, {29765597338684331ull,-190}, {33389766711921715ull,-190}, {49005300668934321ull,-190}, {77305427432277771ull,-190}, {91455490813949496ull,-190}, {94733046075909069ull,-190}, {5883796645481304ull,-189},
{6677953342384343ull,-189}, {12561749987865647ull,-189}, {13355906684768686ull,-189}, {26711813369537372ull,-189}, {31577682025303023ull,-189}, {53423626739074744ull,-189}, {58289495394840395ull,-189}, {69609546100177775ull,-189},
{79341283411709077ull,-189}, {3396015211601214ull,-188}, {5997873726299389ull,-188}, {6792030423202428ull,-188}, {11657899078968079ull,-188}, {13921909220035555ull,-188}, {23315798157936158ull,-188}, {27843818440071110ull,-188},
{46631596315872316ull,-188}, {56025485253772919ull,-188}, {92925344258113933ull,-188}, {5568763688014222ull,-187}, {9393888937900603ull,-187}, {11137527376028444ull,-187}, {18787777875801206ull,-187}, {22275054752056888ull,-187},
{37237707377971713ull,-187}, {59512762130028601ull,-187}, {74475414755943426ull,-187}, {89100219008227552ull,-187}, {90451612502750348ull,-187}, {4657719974589797ull,-186}, {7312402126142063ull,-186}, {9315439949179594ull,-186},
{14624804252284126ull,-186}, {18630879898359188ull,-186}, {32242139029751217ull,-186}, {34269229271535411ull,-186}, {64484278059502434ull,-186}, {68538458543070822ull,-186}, {84080598241260393ull,-186}, {3668227272444363ull,-185},
{4710858198067939ull,-185}, {6737948439852133ull,-185}, {9421716396135878ull,-185}, {13475896879704266ull,-185}, {18244926687235163ull,-185}, {26932774726646685ull,-185}, {36489853374470326ull,-185}, {53865549453293370ull,-185},
{70604701361556127ull,-185}, {5386554945329337ull,-184}, {8255580442952614ull,-184}, {10773109890658674ull,-184}, {20824208648721067ull,-184}, {21546219781317348ull,-184}, {41173416219965229ull,-184}, {43092439562634696ull,-184},
{81871831362453553ull,-184}, {86184879125269392ull,-184}, {96235977883331785ull,-184}, {7182073260439116ull,-183}, {7277073475934497ull,-183}, {14364146520878232ull,-183}, {14459146736373613ull,-183}, {19247195576666357ull,-183},
{28728293041756464ull,-183}, {38494391153332714ull,-183}, {67127683979593797ull,-183}, {76988782306665428ull,-183}, {86279879340764773ull,-183}, {3811439029135119ull,-182}, {5859658866945750ull,-182}, {7622878058270238ull,-182},
{11719317733891500ull,-182}, {15245756116540476ull,-182}, {25296854874602869ull,-182}, {28633292826261083ull,-182}, {52451929156025607ull,-182}, {55408366245702297ull,-182}, {99329200091591607ull,-182}, {6841590209344138ull,-181},
{9375454187113200ull,-181}, {11824961011868407ull,-181}, {20609127781046269ull,-181}, {34292308199734545ull,-181}, {38008747013374283ull,-181}, {50509352596191883ull,-181}, {76017494026748566ull,-181}, {89362458486543069ull,-181},
{97809196643665511ull,-181}, {6216559930203258ull,-180}, {6858461639946909ull,-180}, {13075021570150167ull,-180}, {13716923279893818ull,-180}, {26791944850043985ull,-180}, {27433846559787636ull,-180}, {53583889700087970ull,-180},
{54225791409831621ull,-180}, {70375350083877875ull,-180}, {71659153503365177ull,-180}, {5358388970008797ull,-179}, {6000290679752448ull,-179}, {10716777940017594ull,-179}, {11358679649761245ull,-179}, {15358873436262877ull,-179},
{21433555880035188ull,-179}, {36792429316298065ull,-179}, {42867111760070376ull,-179}, {79659541076368441ull,-179}, {85734223520140752ull,-179}, {5630028006710230ull,-178}, {7358485863259613ull,-178}, {11260056013420460ull,-178},
{14716971726519226ull,-178}, {29433943453038452ull,-178}, {35508625896810763ull,-178}, {45879373036107061ull,-178}, {84005765663591369ull,-178}, {90080448107363680ull,-178}, {91758746072214122ull,-178}, {4504022405368184ull,-177},
{8484491464601659ull,-177}, {9008044810736368ull,-177}, {16968982929203318ull,-177}, {20949451988436793ull,-177}, {31004603491442579ull,-177}, {38965541609909529ull,-177}, {62009206982885158ull,-177}, {74997720852855001ull,-177},
{77931083219819058ull,-177}, {4776562871080170ull,-176}, {5027575751502893ull,-176}, {10055151503005786ull,-176}, {12988513869969843ull,-176}, {23043665372975629ull,-176}, {25977027739939686ull,-176}, {36283192123368195ull,-176},
{51954055479879372ull,-176}, {68628970358081441ull,-176}, {84299833714592618ull,-176}, {7256638424673639ull,-175}, {7642500593728272ull,-175}, {14513276849347278ull,-175}, {19994139414220759ull,-175}, {34507416263568037ull,-175},
{43925692717096467ull,-175}, {63533969962262593ull,-175}, {69014832527136074ull,-175}, {91788799322847883ull,-175}, {97962594027722011ull,-175}, {4709138226764215ull,-174}, {8306345500932010ull,-174}, {9418276453528430ull,-174},
{14899139018401911ull,-174}, {20550104890518969ull,-174}, {29798278036803822ull,-174}, {42813761764500047ull,-174}, {57883004090145535ull,-174}, {85627523529000094ull,-174}, {98983213871183473ull,-174}, {3767310581411372ull,-173},
{6645076400745608ull,-173}, {9248173146284853ull,-173}, {11576600818029107ull,-173}, {23153201636058214ull,-173}, {27195181291264577ull,-173}, {46306403272116428ull,-173}, {50348382927322791ull,-173}, {61859446204659735ull,-173},
{96654786199439219ull,-173}, {8206934448069155ull,-172}, {8452884723382013ull,-172}, {16905769446764026ull,-172}, {20947749101970389ull,-172}, {33811538893528052ull,-172}, {41895498203940778ull,-172}, {63089197581224025ull,-172},
{83790996407881556ull,-172}, {93842557920797146ull,-172}, {98975113927455576ull,-172}, {6052291957789481ull,-171}, {6565547558455324ull,-171}, {12617839516244805ull,-171}, {13131095116910648ull,-171}, {25235679032489610ull,-171},
{30796070439653375ull,-171}, {50471358064979220ull,-171}, {56031749472142985ull,-171}, {77246803899466359ull,-171}, {95382324722794675ull,-171}, {5047135806497922ull,-170}, {6159214087930675ull,-170}, {10094271612995844ull,-170},
{11206349894428597ull,-170}, {20188543225991688ull,-170}, {21300621507424441ull,-170}, {41489164733416129ull,-170}, {42601243014848882ull,-170}, {82978329466832258ull,-170}, {85202486029697764ull,-170}, {7630585977823574ull,-169},
{8742664259256327ull,-169}, {15261171955647148ull,-169}, {17485328518512654ull,-169}, {30522343911294296ull,-169}, {34970657037025308ull,-169}, {49119750711239703ull,-169}, {69941314074050616ull,-169}, {98051195094280835ull,-169},
{98239501422479406ull,-169}, {7883794032551264ull,-168}, {8489456204528637ull,-168}, {15767588065102528ull,-168}, {16373250237079901ull,-168}, {20821563362810913ull,-168}, {32746500474159802ull,-168}, {41643126725621826ull,-168},
{76206613715713747ull,-168}, {88131550827062636ull,-168}, {96422514906547287ull,-168}, {4648842410144081ull,-167}, {6064770357250062ull,-167}, {9297684820288162ull,-167}, {14756793005560851ull,-167}, {15968117349515597ull,-167},
{29513586011121702ull,-167}, {31936234699031194ull,-167}, {59027172022243404ull,-167}, {88336154430213871ull,-167}, {93590659012335325ull,-167}, {7963598314442675ull,-166}, {10754533488024390ull,-166}, {13463627220345611ull,-166},
{18718131802467065ull,-166}, {37436263604934130ull,-166}, {40227198778515845ull,-166}, {74872527209868260ull,-166}, {77663462383449975ull,-166}, {98026749181851839ull,-166}, {99164203188773836ull,-166}, {7487252720986826ull,-165},
{8045439755703169ull,-165}, {14974505441973652ull,-165}, {15532692476689995ull,-165}, {29949010883947304ull,-165}, {31065384953379990ull,-165}, {59898021767894608ull,-165}, {62130769906759980ull,-165}, {88172471547692883ull,-165},
{92637967825423627ull,-165}, {5096702921243312ull,-164}, {6213076990675998ull,-164}, {10193405842486624ull,-164}, {12426153981351996ull,-164}, {24852307962703992ull,-164}, {29390823849230961ull,-164}, {54243131811934953ull,-164},
{58781647698461922ull,-164}, {63393183193785116ull,-164}, {99409231850815968ull,-164}, {3138191287938562ull,-163}, {6230918920300276ull,-163}, {9033220007776203ull,-163}, {9062427851294693ull,-163}, {18066440015552406ull,-163},
{22604955902079375ull,-163}, {40671395917631781ull,-163}, {45209911804158750ull,-163}, {58767043776702677ull,-163}, {90419823608317500ull,-163}, {9018616086016958ull,-162}, {9041982360831750ull,-162}, {13522082560321739ull,-162},
{18083964721663500ull,-162}, {22575748058560885ull,-162}, {36167929443327000ull,-162}, {40683079055039177ull,-162}, {72335858886654000ull,-162}, {81366158110078354ull,-162}, {94958339494844469ull,-162}, {4515149611712177ull,-161},
{7233585888665400ull,-161}, {11748735500377577ull,-161}, {14467171777330800ull,-161}, {26215907277708377ull,-161}, {28934343554661600ull,-161}, {52431814555416754ull,-161}, {57868687109323200ull,-161}, {71460868494089315ull,-161},
{93989884003020616ull,-161}, {3768424748030845ull,-160}, {5786868710932320ull,-160}, {9555293458963165ull,-160}, {11573737421864640ull,-160}, {21129030880827805ull,-160}, {23147474843729280ull,-160}, {33402760616744193ull,-160},
{46294949687458560ull,-160}, {61987108014379919ull,-160}, {92589899374917120ull,-160}, {8451612352331122ull,-159}, {9258989937491712ull,-159}, {16903224704662244ull,-159}, {18517979874983424ull,-159}, {27373281019894841ull,-159},
{37035959749966848ull,-159}, {64409240769861689ull,-159}, {74071919499933696ull,-159}, {83760450521860776ull,-159}, {99830445349507357ull,-159}, {4198363442835068ull,-158}, {8047923559750827ull,-158}, {9016776661943535ull,-158},
{10308580798200479ull,-158}, {18033553323887070ull,-158}, {27696232053959077ull,-158}, {36067106647774140ull,-158}, {55392464107918154ull,-158}, {72134213295548280ull,-158}, {96626787300720070ull,-158}, {3606710664777414ull,-157},
{6055968065294593ull,-157}, {7213421329554828ull,-157}, {9662678730072007ull,-157}, {14426842659109656ull,-157}, {19325357460144014ull,-157}, {28853685318219312ull,-157}, {50628300178880505ull,-157}, {57707370636438624ull,-157},
{79481985497099817ull,-157}, {8602365246667110ull,-156}, {10125660035776101ull,-156}, {11977585258592477ull,-156}, {20251320071552202ull,-156}, {23955170517184954ull,-156}, {40502640143104404ull,-156}, {42683195799628165ull,-156},
{81005280286208808ull,-156}, {85366391599256330ull,-156}, {99284817755516700ull,-156}, {4964240887775835ull,-155}, {6881892197333688ull,-155}, {8536639159925633ull,-155}, {15155627010293413ull,-155}, {17073278319851266ull,-155},
{30311254020586826ull,-155}, {34146556639702532ull,-155}, {65849653275915395ull,-155}, {68293113279405064ull,-155}, {95109289908638589ull,-155}, {3971392710220668ull,-154}, {6550942804815299ull,-154}, {7874740374888855ull,-154},
{13169930655183079ull,-154}, {15749480749777710ull,-154}, {26339861310366158ull,-154}, {31498961499555420ull,-154}, {52679722620732316ull,-154}, {57770777764369097ull,-154}, {94905154771981146ull,-154}, {6299792299911084ull,-153},
{8445086430249766ull,-153}, {12599584599822168ull,-153}, {16890172860499532ull,-153}, {24262612225579957ull,-153}, {34716902695063443ull,-153}, {49461781425224293ull,-153}, {68497248416062507ull,-153}, {97050448902319828ull,-153},
{98923562850448586ull,-153}, {5227145234741743ull,-152}, {6568757749386937ull,-152}, {9517733495419107ull,-152}, {14074072472838253ull,-152}, {19035466990838214ull,-152}, {31767926949031273ull,-152}, {34451151978321661ull,-152},
{67155635901417313ull,-152}, {90747441869674673ull,-152}, {97987005876384207ull,-152}, {3457759787122441ull,-151}, {5978962600180503ull,-151}, {8338143197006239ull,-151}, {10535301577599649ull,-151}, {15253662771251121ull,-151},
{22493226777960655ull,-151}, {30507325542502242ull,-151}, {50803393939869487ull,-151}, {69676838714475375ull,-151}, {81310719482371729ull,-151}, {8997290711184262ull,-150}, {10755017415658990ull,-150}, {13935367742895075ull,-150},
{21510034831317980ull,-150}, {27870735485790150ull,-150}, {43563829933159953ull,-150}, {63316138060003205ull,-150}, {79552992777897001ull,-150}, {94158566684218818ull,-150}, {96333607766314790ull,-150}, {5574147097158030ull,-149},
{7089080514842611ull,-149}, {11148294194316060ull,-149}, {12663227612000641ull,-149}, {22296588388632120ull,-149}, {23811521806316701ull,-149}, {44593176777264240ull,-149}, {47623043612633402ull,-149}, {89186353554528480ull,-149},
{95246087225266804ull,-149}, {4459317677726424ull,-148}, {5974251095411005ull,-148}, {8918635355452848ull,-148}, {11948502190822010ull,-148}, {17837270710905696ull,-148}, {23897004381644020ull,-148}, {31300706319412287ull,-148},
{35674541421811392ull,-148}, {71349082843622784ull,-148}, {87842385287498537ull,-148}, {6187004615979170ull,-147}, {10433568773137429ull,-147}, {11371971266237673ull,-147}, {20867137546274858ull,-147}, {25240972648673963ull,-147},
{41734275092549716ull,-147}, {50481945297347926ull,-147}, {66975247741223679ull,-147}, {91468724314658667ull,-147}, {96462784547055901ull,-147}, {5547600552974516ull,-146}, {7147635378886363ull,-146}, {9196167849941595ull,-146},
{16194304013780163ull,-146}, {18392335699883190ull,-146}, {34287641283567763ull,-146}, {36784671399766380ull,-146}, {70474315823142963ull,-146}, {95864787686864721ull,-146}, {99662854198879595ull,-146}, {3678467139976638ull,-145},
{5338301651907603ull,-145}, {7356934279953276ull,-145}, {12575636559822643ull,-145}, {16134504327761045ull,-145}, {19932570839775919ull,-145}, {39865141679551838ull,-145}, {45083843959421205ull,-145}, {79730283359103676ull,-145},
{84948985638973043ull,-145}, {6361033572794697ull,-144}, {9016768791884241ull,-144}, {12814835303899115ull,-144}, {18033537583768482ull,-144}, {30848372887667597ull,-144}, {36067075167536964ull,-144}, {61696745775335194ull,-144},
{66915448055204561ull,-144}, {92823423137931954ull,-144}, {97299980151323553ull,-144}, {5125934121559646ull,-143}, {8331370016129043ull,-143}, {15470570522988659ull,-143}, {17483836908288629ull,-143}, {25722438766107951ull,-143},
{30941141045977318ull,-143}, {51444877532215902ull,-143}, {56663579812085269ull,-143}, {76346219422293310ull,-143}, {97671052784562437ull,-143}, {4429186047659934ull,-142}, {7231968665169337ull,-142}, {7634621942229331ull,-142},
{9245235050469307ull,-142}, {15269243884458662ull,-142}, {18490470100938614ull,-142}, {30538487768917324ull,-142}, {42199642481746595ull,-142}, {72738130250663919ull,-142}, {84399284963493190ull,-142}, {8439928496349319ull,-141},
{9238918921705085ull,-141}, {16879856992698638ull,-141}, {21299568847212239ull,-141}, {33759713985397276ull,-141}, {38179425839910877ull,-141}, {67519427970794552ull,-141}, {71939139825308153ull,-141}, {94786160493118148ull,-141},
{99681161105480296ull,-141}, {5868000426176735ull,-140}, {7391135137364068ull,-140}, {11736000852353470ull,-140}, {16155712706867071ull,-140}, {23472001704706940ull,-140}, {27891713559220541ull,-140}, {51363715263927481ull,-140},
{55783427118441082ull,-140}, {83974525235758419ull,-140}, {93888006818827760ull,-140}, {4145023368085814ull,-139}, {4694400340941388ull,-139}, {9388800681882776ull,-139}, {13808512536396377ull,-139}, {18777601363765552ull,-139},
{27617025072792754ull,-139}, {32036736927306355ull,-139}, {37555202727531104ull,-139}, {64073473854612710ull,-139}, {98307718673341361ull,-139}, {6407347385461271ull,-138}, {11925813185686020ull,-138}, {12814694770922542ull,-138},
{23851626371372040ull,-138}, {25629389541845084ull,-138}, {47703252742744080ull,-138}, {48826702760124237ull,-138}, {95406505485488160ull,-138}, {97653405520248474ull,-138}, {98394110675470942ull,-138}, {5612293173082203ull,-137},
{9540650548548816ull,-137}, {11224586346164406ull,-137}, {19081301097097632ull,-137}, {32737963766827969ull,-137}, {37602116413959831ull,-137}, {55187136459156781ull,-137}, {65475927533655938ull,-137}, {89796690769315248ull,-137},
{90357176549550681ull,-137}, {4601931694512849ull,-136}, {7296228970697793ull,-136}, {12983088350684101ull,-136}, {15152943721631019ull,-136}, {22186951739709799ull,-136}, {25966176701368202ull,-136}, {36254967775867359ull,-136},
{60051289106288643ull,-136}, {72509935551734718ull,-136}, {88187321178603763ull,-136}, {8762683539836833ull,-135}, {10610664992641454ull,-135}, {14389889954299857ull,-135}, {24356807110656717ull,-135}, {25644302783225905ull,-135},
{48713614221313434ull,-135}, {51288605566451810ull,-135}, {93170779756782193ull,-135}, {99230512671214101ull,-135}, {99847960460438152ull,-135}, {5128860556645181ull,-134}, {9115627419187925ull,-134}, {10257721113290362ull,-134},
{17379965101206915ull,-134}, {20515442226580724ull,-134}, {34759930202413830ull,-134}, {41882174190330383ull,-134}, {68668570667658725ull,-134}, {82061768906322896ull,-134}, {83764348380660766ull,-134}, {6781728093048979ull,-133},
{6951986040482766ull,-133}, {13733714133531745ull,-133}, {13903972080965532ull,-133}, {27467428267063490ull,-133}, {27807944161931064ull,-133}, {54934856534126980ull,-133}, {55615888323862128ull,-133}, {82232026853756683ull,-133},
{83594090433226979ull,-133}, {5493485653412698ull,-132}, {5834001548280272ull,-132}, {10986971306825396ull,-132}, {11668003096560544ull,-132}, {16991230802539455ull,-132}, {21973942613650792ull,-132}, {27637686214497277ull,-132},
{43947885227301584ull,-132}, {55275372428994554ull,-132}, {87895770454603168ull,-132}, {6796492321015782ull,-131}, {9513706691788525ull,-131}, {13592984642031564ull,-131}, {16310199012804307ull,-131}, {20841193893481495ull,-131},
{38965173416190247ull,-131}, {48027163177544623ull,-131}, {71585571441798861ull,-131}, {83364775573925980ull,-131}, {89709550964507613ull,-131}, {4168238778696299ull,-130}, {5619263186619855ull,-130}, {8336477557392598ull,-130},
{14681252947974231ull,-130}, {16672955114785196ull,-130}, {29903183654835871ull,-130}, {33345910229570392ull,-130}, {46576138769621067ull,-130}, {66691820459140784ull,-130}, {93152277539242134ull,-130}, {4495410549295884ull,-129},
{6088772282744656ull,-129}, {8990821098591768ull,-129}, {12177544565489312ull,-129}, {13230228540050675ull,-129}, {24355089130978624ull,-129}, {26460457080101350ull,-129}, {42877409087049569ull,-129}, {69337866167150919ull,-129},
{90506231831231999ull,-129}, {5292091416020270ull,-128}, {9008024024519841ull,-128}, {10584182832040540ull,-128}, {18533788573356327ull,-128}, {21168365664081080ull,-128}, {33351644538213083ull,-128}, {42336731328162160ull,-128},
{79922048999191459ull,-128}, {84673462656324320ull,-128}, {88389395264823891ull,-128}, {4233673132816216ull,-127}, {8156701951042445ull,-127}, {8467346265632432ull,-127}, {12597471293585319ull,-127}, {16934692531264864ull,-127},
{25194942587170638ull,-127}, {33869385062529728ull,-127}, {50389885174341276ull,-127}, {67738770125059456ull,-127}, {96235452901276349ull,-127}, {4130125027952887ull,-126}, {5204665485215454ull,-126}, {8260250055905774ull,-126},
{12804567503311977ull,-126}, {21064817559217751ull,-126}, {25855290624979889ull,-126}, {32794844605267161ull,-126}, {42129635118435502ull,-126}, {65589689210534322ull,-126}, {84259270236871004ull,-126}, {5332015426145195ull,-125},
{10580622674605015ull,-125}, {10664030852290390ull,-125}, {21161245349210030ull,-125}, {37388393176344551ull,-125}, {37486855423686925ull,-125}, {56156436450023607ull,-125}, {74973710847373850ull,-125}, {93298674008012223ull,-125},
{93692522997381719ull,-125}, {7398908837395011ull,-124}, {7497371084737385ull,-124}, {11073747694256923ull,-124}, {14994742169474770ull,-124}, {29989484338949540ull,-124}, {33713554319482639ull,-124}, {63703038658432179ull,-124},
{67427108638965278ull,-124}, {69969631651389889ull,-124}, {97613517472599566ull,-124}, {5174313073809389ull,-123}, {5997896867789908ull,-123}, {10348626147618778ull,-123}, {11995793735579816ull,-123}, {16973182314704457ull,-123},
{23991587471159632ull,-123}, {33516629824797891ull,-123}, {47983174942319264ull,-123}, {59155384883918561ull,-123}, {95966349884638528ull,-123}, {6531432043115169ull,-122}, {9768528910308262ull,-122}, {11659183054939303ull,-122},
{20940738851907559ull,-122}, {34003602938137897ull,-122}, {36810965000719967ull,-122}, {51707244922852363ull,-122}, {68007205876275794ull,-122}, {92185041595376446ull,-122}, {92729253017445435ull,-122}, {4772515506389519ull,-121},
{8720083384451842ull,-121}, {9545031012779038ull,-121}, {16861433365939845ull,-121}, {18545850603489087ull,-121}, {33722866731879690ull,-121}, {52268717335368777ull,-121}, {67445733463759380ull,-121}, {80376859942084327ull,-121},
{89360418542346951ull,-121}, {5056703910737211ull,-120}, {6744573346375938ull,-120}, {10113407821474422ull,-120}, {13489146692751876ull,-120}, {19668795428521915ull,-120}, {26978293385503752ull,-120}, {38779570642616901ull,-120},
{53956586771007504ull,-120}, {61266084727989341ull,-120}, {92736157413624405ull,-120}, {7867518171408766ull,-119}, {10679713311316115ull,-119}, {18547231482724881ull,-119}, {21359426622632230ull,-119}, {37094462965449762ull,-119},
{39906658105357111ull,-119}, {52271479093840365ull,-119}, {74188925930899524ull,-119}, {93294177628051334ull,-119}, {93874291910250967ull,-119}, {5731575509145543ull,-118}, {8543770649052892ull,-118}, {10454295818768073ull,-118},
{11463151018291086ull,-118}, {20908591637536146ull,-118}, {29559547515919883ull,-118}, {41817183275072292ull,-118}, {63734630112131451ull,-118}, {83634366550144584ull,-118}, {92285322428528321ull,-118}, {3778176247698024ull,-117},
{6718993662802387ull,-117}, {7556352495396048ull,-117}, {13437987325604774ull,-117}, {21917446837059159ull,-117}, {23763660869175833ull,-117}, {35183937795734581ull,-117}, {56178277616735403ull,-117}, {58024491648852077ull,-117},
{70367875591469162ull,-117}, {6783567609163508ull,-116}, {10497169910500411ull,-116}, {13567135218327016ull,-116}, {20994339821000822ull,-116}, {27155444673757587ull,-116}, {41988679642001644ull,-116}, {54310889347515174ull,-116},
{88893538623946567ull,-116}, {93830892200993401ull,-116}, {98704723066729570ull,-116}, {7406030365570251ull,-115}, {7410265212990962ull,-115}, {9878942001514379ull,-115}, {14812060731140502ull,-115}, {19757884003028758ull,-115},
{34565709886748549ull,-115}, {39515768006057516ull,-115}, {69131419773497098ull,-115}, {79031536012115032ull,-115}, {93822422506151979ull,-115}, {3961740434415458ull,-114}, {6909754099413141ull,-114}, {7923480868830916ull,-114},
{13819508198826282ull,-114}, {14824765273402635ull,-114}, {27639016397652564ull,-114}, {48393687780416253ull,-114}, {52346958519990289ull,-114}, {62230135368925379ull,-114}, {96787375560832506ull,-114}, {7306775112338829ull,-113},
{11260045851912865ull,-113}, {14613550224677658ull,-113}, {22520091703825730ull,-113}, {31803502185951577ull,-113}, {42463781671055199ull,-113}, {50370323150203271ull,-113}, {84927563342110398ull,-113}, {96297187904651176ull,-113},
{97809572025091703ull,-113}, {5330139742551811ull,-112}, {9008036681530292ull,-112}, {14338176424082103ull,-112}, {18016073363060584ull,-112}, {22795465504421285ull,-112}, {28676352848164206ull,-112}, {45590931008842570ull,-112},
{70589386918028295ull,-112}, {89706955483471099ull,-112}, {91181862017685140ull,-112}, {4559093100884257ull,-111}, {5440289262790033ull,-111}, {9118186201768514ull,-111}, {14117877383605659ull,-111}, {18236372403537028ull,-111},
{23236063585374173ull,-111}, {36472744807074056ull,-111}, {46472127170748346ull,-111}, {72945489614148112ull,-111}, {92944254341496692ull,-111}, {6999567654572003ull,-110}, {10474350661520902ull,-110}, {13999135309144006ull,-110},
{21473671261562621ull,-110}, {35472806570706627ull,-110}, {43472312461646059ull,-110}, {70945613141413254ull,-110}, {86944624923292118ull,-110}, {96269127003539647ull,-110}, {99918773887173257ull,-110}, {5494660135953439ull,-109},
{9009444455441702ull,-109}, {10989320271906878ull,-109}, {17493918972362587ull,-109}, {21978640543813756ull,-109}, {28483239244269465ull,-109}, {56966478488538930ull,-109}, {69450705950929531ull,-109}, {87914562175255024ull,-109},
{88964502052296658ull,-109}, {5696647848853893ull,-108}, {6787579613536708ull,-108}, {8686462229821339ull,-108}, {11393295697707786ull,-108}, {20079757927529125ull,-108}, {22786591395415572ull,-108}, {42866349322944697ull,-108},
{45573182790831144ull,-108}, {85732698645889394ull,-108}, {91146365581662288ull,-108}, {8031903171011650ull,-107}, {10738736638898097ull,-107}, {16063806342023300ull,-107}, {21477473277796194ull,-107}, {27675288392667649ull,-107},
{47407270846971339ull,-107}, {50898252493956347ull,-107}, {94814541693942678ull,-107}, {98558088124140101ull,-107}, {99368690132699978ull,-107}, {5919594736291107ull,-106}, {6425522536809320ull,-106}, {12851045073618640ull,-106},
{16291513763961165ull,-106}, {21249765855858329ull,-106}, {37035351819301281ull,-106}, {42499531711716658ull,-106}, {78523027929981513ull,-106}, {80546739132054365ull,-106}, {99165840072036663ull,-106}, {5140418029447456ull,-105},
{6516605505584466ull,-105}, {10280836058894912ull,-105}, {13033211011168932ull,-105}, {16109347826410873ull,-105}, {30518746313716815ull,-105}, {51080418431506639ull,-105}, {59985067014264541ull,-105}, {64437391305643492ull,-105},
{83299114084328385ull,-105}, {5002799281833755ull,-104}, {6103749262743363ull,-104}, {6654224253198167ull,-104}, {10005598563667510ull,-104}, {16659822816865677ull,-104}, {20011197127335020ull,-104}, {33319645633731354ull,-104},
{36671019944200697ull,-104}, {66639291267462708ull,-104}, {69990665577932051ull,-104}, {7755174234107775ull,-103}, {8004478850934008ull,-103}, {12657583391398673ull,-103}, {16008957701868016ull,-103}, {22462401705980469ull,-103},
{34870680480552909ull,-103}, {47777568488777815ull,-103}, {69741360961105818ull,-103}, {85002404812495135ull,-103}, {95555136977555630ull,-103}, {5833030065383831ull,-102}, {6204139387286220ull,-102}, {9555513697755563ull,-102},
{14518825207584539ull,-102}, {17000480962499027ull,-102}, {31148196848181177ull,-102}, {34000961924998054ull,-102}, {62296393696362354ull,-102}, {68001923849996108ull,-102}, {88481279034714555ull,-102}, {4244314765704645ull,-101},
{4963311509828976ull,-101}, {8488629531409290ull,-101}, {9207626275533621ull,-101}, {17696255806942911ull,-101}, {18415252551067242ull,-101}, {36830505102134484ull,-101}, {47429681066555873ull,-101}, {61623840751598917ull,-101},
{94859362133111746ull,-101}, {6790903625127432ull,-100}, {9773534910960907ull,-100}, {16564438536088339ull,-100}, {19547069821921814ull,-100}, {27056970191173577ull,-100}, {33128877072176678ull,-100}, {42076770929677103ull,-100},
{78294923597023407ull,-100}, {84260186168690357ull,-100}, {84366830478026508ull,-100}, {4175683800166865ull,-99}, {7861485652503186ull,-99}, {10844116938336661ull,-99}, {13230221967003441ull,-99}, {21688233876673322ull,-99},
{26460443934006882ull,-99}, {43376467753346644ull,-99}, {57799742234683475ull,-99}, {81874081140023577ull,-99}, {86752935506693288ull,-99}, {3340547040133492ull,-98}, {6310517383869779ull,-98}, {9651064424003271ull,-98},
{11559948446936695ull,-98}, {19302128848006542ull,-98}, {23119896893873390ull,-98}, {33725403329343373ull,-98}, {46239793787746780ull,-98}, {67450806658686746ull,-98}, {92479587575493560ull,-98}, {8696622412536559ull,-97},
{9247958757549356ull,-97}, {11411717768377813ull,-97}, {18495917515098712ull,-97}, {22823435536755626ull,-97}, {36991835030197424ull,-97}, {53833743510257745ull,-97}, {73983670060394848ull,-97}, {87517560470378387ull,-97},
{96338941990583139ull,-97}, {4878854366669711ull,-96}, {8280505158059960ull,-96}, {10766748702051549ull,-96}, {16561010316119920ull,-96}, {21533497404103098ull,-96}, {32112980663527713ull,-96}, {43066994808206196ull,-96},
{58431699712987055ull,-96}, {82357807939768275ull,-96}, {97722512844549134ull,-96}, {4508507474563045ull,-95}, {5061935816149443ull,-95}, {7454546638827565ull,-95}, {11686339942597411ull,-95}, {16471561587953655ull,-95},
{23372679885194822ull,-95}, {32943123175907310ull,-95}, {39844241473148477ull,-95}, {65886246351814620ull,-95}, {79688482946296954ull,-95}, {6588624635181462ull,-94}, {7213611959300872ull,-94}, {13177249270362924ull,-94},
{20703354891723501ull,-94}, {26354498540725848ull,-94}, {33880604162086425ull,-94}, {52708997081451696ull,-94}, {60235102702812273ull,-94}, {87839575891776941ull,-94}, {90365782920182238ull,-94}, {6276130973121757ull,-93},
{6776120832417285ull,-93}, {12552261946243514ull,-93}, {13552241664834570ull,-93}, {18578397989717507ull,-93}, {33630609232438661ull,-93}, {37156795979435014ull,-93}, {67261218464877322ull,-93}, {71787384930464731ull,-93},
{82313429707598476ull,-93}, {5420896665933828ull,-92}, {5526146184178465ull,-92}, {8736584376440907ull,-92}, {10841793331867656ull,-92}, {19578377708308563ull,-92}, {21683586663735312ull,-92}, {39156755416617126ull,-92},
{54314216177582917ull,-92}, {67366467983121959ull,-92}, {78313510833234252ull,-92}, {6147183918982026ull,-91}, {10357601829835524ull,-91}, {15157460760965791ull,-91}, {17852110736669309ull,-91}, {24757178623226325ull,-91},
{35704221473338618ull,-91}, {49514357246452650ull,-91}, {76966185845382493ull,-91}, {93470971594200043ull,-91}, {99028714492905300ull,-91}, {4951435724645265ull,-90}, {5995607125467028ull,-90}, {9902871449290530ull,-90},
{17548957149639313ull,-90}, {19805742898581060ull,-90}, {27451828598929843ull,-90}, {39611485797162120ull,-90}, {47257571497510903ull,-90}, {79222971594324240ull,-90}, {86869057294673023ull,-90}, {3961148579716212ull,-89},
{6325702840443379ull,-89}, {7922297159432424ull,-89}, {10286851420159591ull,-89}, {15844594318864848ull,-89}, {23490680019213631ull,-89}, {31689188637729696ull,-89}, {39335274338078479ull,-89}, {63378377275459392ull,-89},
{92150588734294639ull,-89}, {10563062879243232ull,-88}, {10925489147755209ull,-88}, {21126125758486464ull,-88}, {21488552026998441ull,-88}, {28772211458835247ull,-88}, {42252251516972928ull,-88}, {71024462975808175ull,-88},
{84504503033945856ull,-88}, {91028175867161442ull,-88}, {98709395629107491ull,-88}, {5319530769552677ull,-87}, {6044383306576631ull,-87}, {10639061539105354ull,-87}, {14204892595161635ull,-87}, {28409785190323270ull,-87},
{30525911172331643ull,-87}, {56819570380646540ull,-87}, {70299610438784221ull,-87}, {81663524514913529ull,-87}, {86679060645017718ull,-87}, {3832399419240467ull,-86}, {5681957038064654ull,-86}, {9514356457305121ull,-86},
{11363914076129308ull,-86}, {19028712914610242ull,-86}, {22727828152258616ull,-86}, {38057425829220484ull,-86}, {45455656304517232ull,-86}, {66333926837951661ull,-86}, {76114851658440968ull,-86}, {6608377939823259ull,-85},
{10570777355962796ull,-85}, {17179155295786055ull,-85}, {21141554711925592ull,-85}, {24577385771082803ull,-85}, {38320710007711647ull,-85}, {49154771542165606ull,-85}, {76641420015423294ull,-85}, {93596701349034462ull,-85},
{98309543084331212ull,-85}, {5707957037444468ull,-84}, {6871662118314422ull,-84}, {11415914074888936ull,-84}, {13743324236628844ull,-84}, {20033133814508289ull,-84}, {30285342808527271ull,-84}, {40066267629016578ull,-84},
{68024200275803941ull,-84}, {80132535258033156ull,-84}, {98780827257860887ull,-84}, {4937590827597621ull,-83}, {5126104497009491ull,-83}, {7642028328161269ull,-83}, {12485362321052955ull,-83}, {17517209983356511ull,-83},
{22737571315071937ull,-83}, {35034419966713022ull,-83}, {52928657288893273ull,-83}, {73056047938107497ull,-83}, {87963077255606295ull,-83}, {7604325594278895ull,-82}, {9988289856842364ull,-82}, {15208651188557790ull,-82},
{17592615451121259ull,-82}, {32801266639679049ull,-82}, {35185230902242518ull,-82}, {70370461804485036ull,-82}, {93032627651792225ull,-82}, {95416591914355694ull,-82}, {99007043661155131ull,-82}, {6083460475423116ull,-81},
{8467424737986585ull,-81}, {10495244896460957ull,-81}, {18606525530358445ull,-81}, {20990489792921914ull,-81}, {37213051060716890ull,-81}, {41980979585843828ull,-81}, {74426102121433780ull,-81}, {77522354592175443ull,-81},
{97335367606769856ull,-81}, {6773939790389268ull,-80}, {7442610212143378ull,-80}, {13547879580778536ull,-80}, {14885220424286756ull,-80}, {20656154582044859ull,-80}, {29770440848573512ull,-80}, {50426595430618371ull,-80},
{59540881697147024ull,-80}, {65980486276659237ull,-80}, {75094772543187890ull,-80}, {6439604579512213ull,-79}, {7509477254318789ull,-79}, {15018954508637578ull,-79}, {21993495425553079ull,-79}, {30037909017275156ull,-79},
{43986990851106158ull,-79}, {50961531768021659ull,-79}, {97088267968740969ull,-79}, {97577112704887137ull,-79}, {99701844063739138ull,-79}, {6863479943300292ull,-78}, {6974540916915501ull,-78}, {13838020860215793ull,-78},
{13949081833831002ull,-78}, {27676041720431586ull,-78}, {27787102694046795ull,-78}, {55574205388093590ull,-78}, {73913838894766105ull,-78}, {92364533375053829ull,-78}, {92808777269514665ull,-78}, {5446359565194150ull,-77},
{5557420538809359ull,-77}, {11114841077618718ull,-77}, {14782767778953221ull,-77}, {22229682155237436ull,-77}, {25897608856571939ull,-77}, {44459364310474872ull,-77}, {51795217713143878ull,-77}, {70134851219816393ull,-77},
{88918728620949744ull,-77}, {8247136300720241ull,-76}, {11003780104003509ull,-76}, {16961311605030881ull,-76}, {21540521204416619ull,-76}, {28876374607085625ull,-76}, {33922623210061762ull,-76}, {57752749214171250ull,-76},
{62798997817147387ull,-76}, {99615035485269795ull,-76}, {99830806821303716ull,-76}, {5775274921417125ull,-75}, {6971340243448512ull,-75}, {11550549842834250ull,-75}, {16596798445810387ull,-75}, {23101099685668500ull,-75},
{35847714850534137ull,-75}, {46202199371337000ull,-75}, {74349547659981637ull,-75}, {87096162824847274ull,-75}, {92404398742674000ull,-75}, {4620219937133700ull,-74}, {5046248602976137ull,-74}, {9240439874267400ull,-74},
{12746615164865637ull,-74}, {18480879748534800ull,-74}, {21987055039133037ull,-74}, {36961759497069600ull,-74}, {52788521286691037ull,-74}, {73923518994139200ull,-74}, {89750280783760637ull,-74}, {3696175949706960ull,-73},
{4738233940500557ull,-73}, {7392351899413920ull,-73}, {8434409890207517ull,-73}, {14784703798827840ull,-73}, {20754996389230717ull,-73}, {29569407597655680ull,-73}, {35539700188058557ull,-73}, {59138815195311360ull,-73},
{65109107785714237ull,-73}, {5913881519531136ull,-72}, {7941586430246589ull,-72}, {11827763039062272ull,-72}, {17798055629465149ull,-72}, {23655526078124544ull,-72}, {37510994027902269ull,-72}, {47311052156249088ull,-72},
{76936870824776509ull,-72}, {92707221543526205ull,-72}, {94622104312498176ull,-72}, {5970292590402877ull,-71}, {7885175359374848ull,-71}, {8313280769866635ull,-71}, {15770350718749696ull,-71}, {18541444308705241ull,-71},
{31540701437499392ull,-71}, {37082888617410482ull,-71}, {63081402874998784ull,-71}, {74165777234820964ull,-71}, {76080660003792935ull,-71}, {3325312307946654ull,-70}, {5240195076918625ull,-70}, {6650624615893308ull,-70},
{12999257128794151ull,-70}, {15216132000758587ull,-70}, {24083631488616331ull,-70}, {30432264001517174ull,-70}, {48167262977232662ull,-70}, {60864528003034348ull,-70}, {89381909235579551ull,-70}, {6227835671703857ull,-69},
{8867499487857744ull,-69}, {10782382256829715ull,-69}, {17734998975715488ull,-69}, {21564764513659430ull,-69}, {41456239940740861ull,-69}, {54395098648936519ull,-69}, {82912479881481722ull,-69}, {85552143697635609ull,-69},
{97524627676255379ull,-69}, {4312952902731886ull,-68}, {8149865116747750ull,-68}, {8625905805463772ull,-68}, {16299730233495500ull,-68}, {28517381232545203ull,-68}, {30911878028269157ull,-68}, {43374696047748793ull,-68},
{61823756056538314ull,-68}, {77878319269603881ull,-68}, {86749392095497586ull,-68}, {4745677528219459ull,-67}, {5365959758764672ull,-67}, {7717140491260177ull,-67}, {12506134082708085ull,-67}, {13660066417341613ull,-67},
{25012268165416170ull,-67}, {42220763713115265ull,-67}, {45769192843472747ull,-67}, {65992467417441009ull,-67}, {91538385686945494ull,-67}, {6883398219079638ull,-66}, {8444152742623053ull,-66}, {13766796438159276ull,-66},
{16888305485246106ull,-66}, {22424409222417655ull,-66}, {38885794624393109ull,-66}, {44848818444835310ull,-66}, {82880772902687115ull,-66}, {89697636889670620ull,-66}, {99342158304662569ull,-66}, {4484881844483531ull,-65},
{5733485463318263ull,-65}, {8969763688967062ull,-65}, {16576154580537423ull,-65}, {17939527377934124ull,-65}, {33152309161074846ull,-65}, {35879054755868248ull,-65}, {66304618322149692ull,-65}, {76637754808513455ull,-65},
{91735767413092208ull,-65}, {3564951639874431ull,-64}, {6653415667927363ull,-64}, {8197647681953829ull,-64}, {12239086933649759ull,-64}, {15327550961702691ull,-64}, {24478173867299518ull,-64}, {29587357521200415ull,-64},
{50024092136804003ull,-64}, {60242459444605797ull,-64}, {98980439871403039ull,-64}, {5917471504240083ull,-63}, {10218367307801794ull,-63}, {11834943008480166ull,-63}, {20436734615603588ull,-63}, {23669886016960332ull,-63},
{39805724829002209ull,-63}, {47339772033920664ull,-63}, {79611449658004418ull,-63}, {94679544067841328ull,-63}, {96815032872251262ull,-63}, {4520428322951073ull,-62}, {8601791607123422ull,-62}, {9040856645902146ull,-62},
{16135838812041877ull,-62}, {25176695457944023ull,-62}, {32271677624083754ull,-62}, {45393897554158249ull,-62}, {69502848609897305ull,-62}, {72326853167217168ull,-62}, {95747288470046295ull,-62}, {4470538180124832ull,-61},
{6027237763934764ull,-61}, {7094982166139731ull,-61}, {13900569721979461ull,-61}, {19149457694009259ull,-61}, {27801139443958922ull,-61}, {46950597137968181ull,-61}, {55602278887917844ull,-61}, {60561772249647641ull,-61},
{93901194275936362ull,-61}, {5929446727613771ull,-60}, {8166705067007676ull,-60}, {11858893455227542ull,-60}, {19540621839293231ull,-60}, {23717786910455084ull,-60}, {42288455383864341ull,-60}, {47435573820910168ull,-60},
{87784122473006561ull,-60}, {91663935936542457ull,-60}, {95387952314066147ull,-60}, {5891921712550565ull,-59}, {7309326746313320ull,-59}, {11411441787348761ull,-59}, {14991055130379009ull,-59}, {19615671869419643ull,-59},
{33189321966035897ull,-59}, {36024132033561407ull,-59}, {69585855637349673ull,-59}, {72048264067122814ull,-59}, {95988352555077443ull,-59}, {4713537370040452ull,-58}, {5847461397050656ull,-58}, {8487711088823433ull,-58},
{12634286445358783ull,-58}, {16975422177646866ull,-58}, {24329209239460095ull,-58}, {33950844355293732ull,-58}, {48658418478920190ull,-58}, {68841052361844935ull,-58}, {97316836957840380ull,-58}, {6414423410555758ull,-57},
{9731683695784038ull,-57}, {13768210472368987ull,-57}, {19463367391568076ull,-57}, {27536420944737974ull,-57}, {33231577863937063ull,-57}, {55072841889475948ull,-57}, {66463155727874126ull,-57}, {94997915335523834ull,-57},
{98696394928899455ull,-57}, {7022061033290401ull,-56}, {7409601496124242ull,-56}, {11777854301232019ull,-56}, {17085470757597267ull,-56}, {25821976367812821ull,-56}, {31904673749845751ull,-56}, {37212290206210999ull,-56},
{63809347499691502ull,-56}, {74424580412421998ull,-56}, {98755369940553718ull,-56}, {4257888167423051ull,-55}, {6524155932771834ull,-55}, {8515776334846102ull,-55}, {13215123053008057ull,-55}, {16864741482227815ull,-55},
{26430246106016114ull,-55}, {33729482964455630ull,-55}, {43294987588243929ull,-55}, {67458965928911260ull,-55}, {86589975176487858ull,-55}, {6745896592891126ull,-54}, {8625635280155908ull,-54}, {13491793185782252ull,-54},
{21177559122305769ull,-54}, {34669352308088021ull,-54}, {42355118244611538ull,-54}, {77024470552699559ull,-54}, {84710236489223076ull,-54}, {94564547862783650ull,-54}, {99914957174805721ull,-54}, {5363355036820023ull,-53},
{6967232699110482ull,-53}, {10726710073640046ull,-53}, {12330587735930505ull,-53}, {23057297809570551ull,-53}, {24661175471861010ull,-53}, {47718473281431561ull,-53}, {49322350943722020ull,-53}, {97040824225153581ull,-53},
{98644701887444040ull,-53}, {4932235094372202ull,-52}, {6081888274233058ull,-52}, {8260592526453945ull,-52}, {9864470188744404ull,-52}, {18125062715198349ull,-52}, {19728940377488808ull,-52}, {37854003092687157ull,-52},
{39457880754977616ull,-52}, {75708006185374314ull,-52}, {78915761509955232ull,-52}, {6608474021163156ull,-51}, {8212351683453615ull,-51}, {16424703366907230ull,-51}, {19226475052058875ull,-51}, {35651178418966105ull,-51},
{47670232438431231ull,-51}, {56481531133315439ull,-51}, {95340464876862462ull,-51}, {97776366713438100ull,-51}, {98142236562014107ull,-51}, {6569881346762892ull,-50}, {7130235683793221ull,-50}, {13139762693525784ull,-50},
{14260471367586442ull,-50}, {26279525387051568ull,-50}, {28520942735172884ull,-50}, {57041885470345768ull,-50}, {69621293826841223ull,-50}, {79959284835215362ull,-50}, {88924954227700626ull,-50}, {3911054668537524ull,-49},
{6152472016658840ull,-49}, {7822109337075048ull,-49}, {14820825704616771ull,-49}, {15644218674150096ull,-49}, {29641651409233542ull,-49}, {31288437348300192ull,-49}, {59283302818467084ull,-49}, {62897041782477275ull,-49},
{98439552266541440ull,-49}, {7767216472439493ull,-48}, {9843955226654144ull,-48}, {12579408356495455ull,-48}, {19687910453308288ull,-48}, {32267318809803743ull,-48}, {42330845495000107ull,-48}, {64534637619607486ull,-48},
{84661690990000214ull,-48}, {98649438129181063ull,-48}, {99977543464269296ull,-48}, {5031763342598182ull,-47}, {7284159263646609ull,-47}, {10063526685196364ull,-47}, {17172028782009197ull,-47}, {27235555467205561ull,-47},
{32442975976637519ull,-47}, {42155188328166331ull,-47}, {77201874559519829ull,-47}, {84310376656332662ull,-47}, {92824136087815703ull,-47}, {4124575524620679ull,-46}, {7811130764147937ull,-46}, {8249151049241358ull,-46},
{15622261528295874ull,-46}, {23491196260061057ull,-46}, {24251628895013407ull,-46}, {36187335183782023ull,-46}, {59298315126366905ull,-46}, {72374670367564046ull,-46}, {83169727703904137ull,-46}, {3269860330295105ull,-45},
{6308504790121226ull,-45}, {11859663025273381ull,-45}, {12163836079254321ull,-45}, {23719326050546762ull,-45}, {24327672158508642ull,-45}, {36035248656791553ull,-45}, {47438652101093524ull,-45}, {72070497313583106ull,-45},
{83473900757885077ull,-45}, {5231776528472168ull,-44}, {10065042006785835ull,-44}, {11646741887486723ull,-44}, {12133418773856227ull,-44}, {23293483774973446ull,-44}, {36156917878383929ull,-44}, {59450401653357375ull,-44},
{72313835756767858ull,-44}, {84203916087439333ull,-44}, {93173935099893784ull,-44}, {4269355245899086ull,-43}, {7620725084772389ull,-43}, {11890080330671475ull,-43}, {15241450169544778ull,-43}, {23780160661342950ull,-43},
{27131530500216253ull,-43}, {47560321322685900ull,-43}, {60423755426096383ull,-43}, {69935819690633563ull,-43}, {95120642645371800ull,-43}, {4302576265327021ull,-42}, {4756032132268590ull,-42}, {9512064264537180ull,-42},
{10961021250503047ull,-42}, {19024128529074360ull,-42}, {24277911220855099ull,-42}, {38048257058148720ull,-42}, {50911691161559203ull,-42}, {76096514116297440ull,-42}, {88959948219707923ull,-42}, {7138477667659943ull,-41},
{7609651411629744ull,-41}, {14276955335319886ull,-41}, {15219302823259488ull,-41}, {28553910670639772ull,-41}, {30438605646518976ull,-41}, {42359692261989857ull,-41}, {75625340372327639ull,-41}, {84719384523979714ull,-41},
{92258164427496530ull,-41}, {4579965148600432ull,-40}, {6464660124479636ull,-40}, {9225816442749653ull,-40}, {12863434103410483ull,-40}, {18451632885499306ull,-40}, {29430372013030585ull,-40}, {36903265770998612ull,-40},
{62696020123368367ull,-40}, {73806531541997224ull,-40}, {92192278281947741ull,-40}, {4431027338341785ull,-39}, {5886074402606117ull,-39}, {8862054676683570ull,-39}, {11772148805212234ull,-39}, {15475652611421853ull,-39},
{17724109353367140ull,-39}, {30951305222843706ull,-39}, {33199761964788993ull,-39}, {64151067187632699ull,-39}, {66399523929577986ull,-39}, {7089643741346856ull,-38}, {10317101740947902ull,-38}, {11930830740748425ull,-38},
{14179287482693712ull,-38}, {23861661481496850ull,-38}, {37061947706534803ull,-38}, {47723322962993700ull,-38}, {82827268154216985ull,-38}, {86743273184840021ull,-38}, {87324181638107559ull,-38}, {4772332296299370ull,-37},
{8427953928738583ull,-37}, {9544664592598740ull,-37}, {16565453630843397ull,-37}, {19089329185197480ull,-37}, {33130907261686794ull,-37}, {38178658370394960ull,-37}, {66261814523373588ull,-37}, {76357316740789920ull,-37},
{89006765341010281ull,-37}, {3817865837039496ull,-36}, {4885506904107883ull,-36}, {7635731674078992ull,-36}, {9771013808215766ull,-36}, {15271463348157984ull,-36}, {19542027616431532ull,-36}, {30542926696315968ull,-36},
{47787427974010443ull,-36}, {61085853392631936ull,-36}, {86871483206873507ull,-36}, {6076136498343137ull,-35}, {7881708728412726ull,-35}, {13957845226755863ull,-35}, {20855645737833653ull,-35}, {26110118223442137ull,-35},
{41711291475667306ull,-35}, {52220236446884274ull,-35}, {85228155181404201ull,-35}, {89488276459944511ull,-35}, {97218183973490192ull,-35}, {5944252536716263ull,-34}, {6897800511077790ull,-34}, {10082932843362937ull,-34},
{11888505073432526ull,-34}, {23777010146865052ull,-34}, {27489678325657695ull,-34}, {54979356651315390ull,-34}, {62303169290247211ull,-34}, {73136602670664745ull,-34}, {95311088024767138ull,-34}, {5477630921400846ull,-33},
{5497935665131539ull,-33}, {10975566586532385ull,-33}, {10995871330263078ull,-33}, {14627320534132949ull,-33}, {21991742660526156ull,-33}, {43983485321052312ull,-33}, {51307297959984133ull,-33}, {87966970642104624ull,-33},
{95290783281036445ull,-33}, {5867172008637734ull,-32}, {8780453269225908ull,-32}, {11734344017275468ull,-32}, {19058156656207289ull,-32}, {23468688034550936ull,-32}, {38116313312414578ull,-32}, {46937376069101872ull,-32},
{76232626624829156ull,-32}, {90880251902692798ull,-32}, {93874752138203744ull,-32}, {5592087677563471ull,-31}, {7323812638931821ull,-31}, {9686925237371469ull,-31}, {14647625277863642ull,-31}, {19373850474742938ull,-31},
{24334550515235111ull,-31}, {48669101030470222ull,-31}, {56624301306473341ull,-31}, {79461601703952979ull,-31}, {97338202060940444ull,-31}, {4268010055944833ull,-30}, {6457950158247646ull,-30}, {8536020111889666ull,-30},
{12915900316495292ull,-30}, {17072040223779332ull,-30}, {25831800632990584ull,-30}, {32177880642577437ull,-30}, {51663601265981168ull,-30}, {64355761285154874ull,-30}, {98142762194148577ull,-30}, {6042336167519242ull,-29},
{10725960214192479ull,-29}, {16768296381711721ull,-29}, {21451920428384958ull,-29}, {33536592763423442ull,-29}, {38220216810096679ull,-29}, {67073185526846884ull,-29}, {76440433620193358ull,-29}, {91492938342494113ull,-29},
{99858553853559543ull,-29}, {5770593743350041ull,-28}, {6607155294456584ull,-28}, {11541187486700082ull,-28}, {12377749037806625ull,-28}, {24755498075613250ull,-28}, {31613061515640095ull,-28}, {39307186506773483ull,-28},
{56368559591253345ull,-28}, {78614373013546966ull,-28}, {99021992302453000ull,-28}, {4951099615122650ull,-27}, {6322612303128019ull,-27}, {11273711918250669ull,-27}, {12645224606256038ull,-27}, {22547423836501338ull,-27},
{23918936524506707ull,-27}, {45094847673002676ull,-27}, {47837873049013414ull,-27}, {90189695346005352ull,-27}, {95675746098026828ull,-27}, {7921759384196240ull,-26}, {10664784760206978ull,-26}, {15843518768392480ull,-26},
{21329569520413956ull,-26}, {30622841592615565ull,-26}, {43723334984997307ull,-26}, {62309879129400525ull,-26}, {86382474025825219ull,-26}, {93501703572661982ull,-26}, {98014859654566175ull,-26}, {6124568318523113ull,-25},
{6337407507356992ull,-25}, {12249136637046226ull,-25}, {12461975825880105ull,-25}, {24711112462926331ull,-25}, {24923951651760210ull,-25}, {49635064114686541ull,-25}, {49847903303520420ull,-25}, {99270128229373082ull,-25},
{99695806607040840ull,-25}, {4771951141518163ull,-24}, {4984790330352042ull,-24}, {9756741471870205ull,-24}, {9969580660704084ull,-24}, {19513482943740410ull,-24}, {19939161321408168ull,-24}, {39878322642816336ull,-24},
{59178966397722867ull,-24}, {79756645285632672ull,-24}, {99057289040539203ull,-24}, {7805393177496164ull,-23}, {8656749932831680ull,-23}, {15610786354992328ull,-23}, {20152000510242047ull,-23}, {28383072065405969ull,-23},
{31221572709984656ull,-23}, {50522216464891187ull,-23}, {56766144130811938ull,-23}, {95926620495864773ull,-23}, {99910580176255620ull,-23}, {4995529008812781ull,-22}, {6925399946265344ull,-22}, {9991058017625562ull,-22},
{11466614101515063ull,-22}, {19982116035251124ull,-22}, {20549042412014501ull,-22}, {38713899033013377ull,-22}, {39964232070502248ull,-22}, {77427798066026754ull,-22}, {77544278349988871ull,-22}, {3859741874905126ull,-21},
{4246489814547999ull,-21}, {7719483749810252ull,-21}, {8016142470892873ull,-21}, {15438967499620504ull,-21}, {15555447783582621ull,-21}, {30634058408962117ull,-21}, {30877934999241008ull,-21}, {61268116817924234ull,-21},
{61279032840278891ull,-21}, {6124628477321492ull,-20}, {6177770204319133ull,-20}, {12249256954642984ull,-20}, {12260172976997641ull,-20}, {24424978522354657ull,-20}, {24498513909285968ull,-20}, {48849957044709314ull,-20},
{48901660386931311ull,-20}, {97699914089418628ull,-20}, {97707953342221997ull,-20}, {4890969963973468ull,-19}, {4893728522354657ull,-19}, {9768383558381189ull,-19}, {9781939927946936ull,-19}, {19536767116762378ull,-19},
{19544806369565747ull,-19}, {39070539252803369ull,-19}, {39073534233524756ull,-19}, {78127994980721387ull,-19}, {78141078505606738ull,-19}, {3907952419496753ull,-18}, {3908362277768872ull,-18}, {7812909858272119ull,-18},
{7815904838993506ull,-18}, {15625819716544238ull,-18}, {15627994980721387ull,-18}, {31251639433088476ull,-18}, {31252175264177149ull,-18}, {62500535831088673ull,-18}, {62503278866176952ull,-18}, {3125056777091113ull,-17},
{3125706162362012ull,-17}, {6250113554182226ull,-17}, {6250649385270899ull,-17}, {12500227108364452ull,-17}, {12500535831088673ull,-17}, {25000308722724221ull,-17}, {25000454216728904ull,-17}, {50000145494004683ull,-17},
{50000617445448442ull,-17}, {5000003546942971ull,-16}, {5000149040947654ull,-16}, {10000007093885942ull,-16}, {10000145494004683ull,-16}, {20000014187771884ull,-16}, {20000138400118741ull,-16}, {40000028375543768ull,-16},
{40000124212346857ull,-16}, {80000056751087536ull,-16}, {80000095836803089ull,-16}, {4000014187771884ull,-15}, {4000016329806241ull,-15}, {8000002142034357ull,-15}, {8000028375543768ull,-15}, {16000004284068714ull,-15},
{16000026233509411ull,-15}, {32000008568137428ull,-15}, {32000021949440697ull,-15}, {64000013381303269ull,-15}, {64000017136274856ull,-15}, {3200001819446911ull,-14}, {3200004284068714ull,-14}, {6400002464621803ull,-14},
{6400003638893822ull,-14}, {12800001174272019ull,-14}, {12800004929243606ull,-14}, {25600002348544038ull,-14}, {25600003754971587ull,-14}, {51200001406427549ull,-14}, {51200004697088076ull,-14}, {5120000092862212ull,-13},
{5120001127840913ull,-13}, {10240000185724424ull,-13}, {10240001034978701ull,-13}, {20480000371448848ull,-13}, {20480000849254277ull,-13}, {40960000477805429ull,-13}, {40960000742897696ull,-13}, {81920000265092267ull,-13},
{81920000955610858ull,-13}, {4096000116832402ull,-12}, {4096000127308223ull,-12}, {8192000010475821ull,-12}, {8192000233664804ull,-12}, {16384000020951642ull,-12}, {16384000223188983ull,-12}, {32768000041903284ull,-12},
{32768000202237341ull,-12}, {65536000083806568ull,-12}, {65536000160334057ull,-12}, {3276800020951642ull,-11}, {3276800027876483ull,-11}, {6553600006924841ull,-11}, {6553600041903284ull,-11}, {13107200013849682ull,-11},
{13107200034978443ull,-11}, {26214400021128761ull,-11}, {26214400027699364ull,-11}, {52428800006570603ull,-11}, {52428800042257522ull,-11}, {5242880001597511ull,-10}, {5242880008168114ull,-10}, {10485760003195022ull,-10},
{10485760006570603ull,-10}, {20971520003375581ull,-10}, {20971520006390044ull,-10}, {41943040003014463ull,-10}, {41943040006751162ull,-10}, {83886080003736699ull,-10}, {83886080006028926ull,-10}, {4194304000530669ull,-9},
{4194304001422456ull,-9}, {8388608000891787ull,-9}, {8388608001061338ull,-9}, {16777216000169551ull,-9}, {16777216001783574ull,-9}, {33554432000339102ull,-9}, {33554432001614023ull,-9}, {67108864000678204ull,-9},
{67108864001274921ull,-9}, {3355443200169551ull,-8}, {3355443200221074ull,-8}, {6710886400051523ull,-8}, {6710886400339102ull,-8}, {13421772800103046ull,-8}, {13421772800287579ull,-8}, {26843545600184533ull,-8},
{26843545600206092ull,-8}, {53687091200021559ull,-8}, {53687091200369066ull,-8}, {5368709120028283ull,-7}, {5368709120049842ull,-7}, {10737418240021559ull,-7}, {10737418240056566ull,-7}, {21474836480035007ull,-7},
{21474836480043118ull,-7}, {42949672960008111ull,-7}, {42949672960070014ull,-7}, {85899345920016222ull,-7}, {85899345920061903ull,-7}, {4294967296003757ull,-6}, {4294967296011868ull,-6}, {8589934592007514ull,-6},
{8589934592008111ull,-6}, {17179869184000597ull,-6}, {17179869184015028ull,-6}, {34359738368001194ull,-6}, {34359738368014431ull,-6}, {68719476736002388ull,-6}, {68719476736013237ull,-6}, {3435973836800597ull,-5},
{3435973836802528ull,-5}, {6871947673601194ull,-5}, {6871947673601931ull,-5}, {13743895347200737ull,-5}, {13743895347202388ull,-5}, {27487790694401474ull,-5}, {27487790694401651ull,-5}, {54975581388800177ull,-5},
{54975581388802948ull,-5}, {5497558138880224ull,-4}, {5497558138880401ull,-4}, {10995116277760177ull,-4}, {10995116277760448ull,-4}, {21990232555520271ull,-4}, {21990232555520354ull,-4}, {43980465111040083ull,-4},
{43980465111040542ull,-4}, {87960930222080166ull,-4}, {87960930222080459ull,-4}, {4398046511104021ull,-3}, {4398046511104104ull,-3}, {8796093022208042ull,-3}, {8796093022208083ull,-3}, {17592186044416041ull,-3},
{17592186044416084ull,-3}, {35184372088832043ull,-3}, {35184372088832082ull,-3}, {70368744177664039ull,-3}, {70368744177664086ull,-3}, {3518437208883209ull,-2}, {3518437208883216ull,-2}, {7036874417766407ull,-2},
{7036874417766418ull,-2}, {14073748835532811ull,-2}, {14073748835532814ull,-2}, {28147497671065603ull,-2}, {28147497671065622ull,-2}, {56294995342131206ull,-2}, {56294995342131219ull,-2}, {5629499534213122ull,-1},
{5629499534213123ull,-1}, {11258999068426241ull,-1}, {11258999068426244ull,-1}, {22517998136852482ull,-1}, {22517998136852483ull,-1}, {45035996273704964ull,-1}, {45035996273704965ull,-1}, {45035996273704966ull,-1},
{90071992547409929ull,-1}, {90071992547409930ull,-1}, {90071992547409931ull,-1}, {9007199254740993ull,0}, {18014398509481986ull,0}, {36028797018963971ull,0}, {36028797018963972ull,0}, {36028797018963973ull,0},
{72057594037927943ull,0}, {72057594037927944ull,0}, {72057594037927945ull,0}, {3602879701896398ull,1}, {7205759403792796ull,1}, {7205759403792799ull,1}, {7205759403792801ull,1}, {14411518807585589ull,1},
{14411518807585592ull,1}, {14411518807585595ull,1}, {28823037615171184ull,1}, {28823037615171197ull,1}, {28823037615171203ull,1}, {57646075230342355ull,1}, {57646075230342368ull,1}, {57646075230342381ull,1},
{5764607523034247ull,2}, {5764607523034256ull,2}, {5764607523034265ull,2}, {11529215046068471ull,2}, {11529215046068489ull,2}, {11529215046068512ull,2}, {23058430092136983ull,2}, {23058430092137024ull,2},
{23058430092137065ull,2}, {46116860184274007ull,2}, {46116860184274048ull,2}, {46116860184274089ull,2}, {92233720368548055ull,2}, {92233720368548096ull,2}, {92233720368548137ull,2}, {4611686018427413ull,3},
{4611686018427456ull,3}, {4611686018427499ull,3}, {9223372036854869ull,3}, {9223372036854912ull,3}, {9223372036854955ull,3}, {18446744073709611ull,3}, {18446744073709824ull,3}, {18446744073710037ull,3},
{36893488147419435ull,3}, {36893488147419648ull,3}, {36893488147419861ull,3}, {73786976294839083ull,3}, {73786976294839296ull,3}, {73786976294839509ull,3}, {3689348814742127ull,4}, {3689348814742272ull,4},
{3689348814742417ull,4}, {7378697629483887ull,4}, {7378697629484177ull,4}, {7378697629484544ull,4}, {14757395258968721ull,4}, {14757395258969088ull,4}, {14757395258969455ull,4}, {29514790517937809ull,4},
{29514790517938176ull,4}, {29514790517938543ull,4}, {59029581035875985ull,4}, {59029581035876352ull,4}, {59029581035876719ull,4}, {5902958103588381ull,5}, {5902958103589347ull,5}, {5902958103590912ull,5},
{11805916207175197ull,5}, {11805916207180259ull,5}, {11805916207181824ull,5}, {23611832414353891ull,5}, {23611832414357021ull,5}, {23611832414363648ull,5}, {47223664828701155ull,5}, {47223664828720669ull,5},
{47223664828727296ull,5}, {94447329657395683ull,5}, {94447329657447965ull,5}, {94447329657454592ull,5}, {4722366482874055ull,6}, {4722366482874681ull,6}, {4722366482882560ull,6}, {9444732965740231ull,6},
{9444732965757241ull,6}, {9444732965765120ull,6}, {18889465931489593ull,6}, {18889465931505351ull,6}, {18889465931530240ull,6}, {37778931863035591ull,6}, {37778931863060480ull,6}, {37778931863085369ull,6},
{75557863725964999ull,6}, {75557863726014777ull,6}, {75557863726120960ull,6}, {3777893186306048ull,7}, {3777893186324133ull,7}, {3777893186353499ull,7}, {7555786372612096ull,7}, {7555786372659547ull,7},
{7555786372695717ull,7}, {15111572745224192ull,7}, {15111572745307813ull,7}, {15111572745402715ull,7}, {30223145490448384ull,7}, {30223145490626907ull,7}, {30223145490794149ull,7}, {60446290980896768ull,7},
{60446290981075291ull,7}, {60446290981766821ull,7}, {6044629098230239ull,8}, {6044629098299392ull,8}, {6044629098368545ull,8}, {12089258196598784ull,8}, {12089258197053919ull,8}, {12089258197192225ull,8},
{24178516392604127ull,8}, {24178516393197568ull,8}, {24178516393791009ull,8}, {48357032784891425ull,8}, {48357032786395136ull,8}, {48357032787898847ull,8}, {96714065571286561ull,8}, {96714065572790272ull,8},
{96714065574293983ull,8}, {4835703279058944ull,9}, {4835703280016493ull,9}, {4835703280198547ull,9}, {9671406556978285ull,9}, {9671406558117888ull,9}, {9671406559257491ull,9}, {19342813116235776ull,9},
{19342813119290477ull,9}, {19342813121569683ull,9}, {38685626229416851ull,9}, {38685626232471552ull,9}, {38685626235526253ull,9}, {77371252461888403ull,9}, {77371252464943104ull,9}, {77371252467997805ull,9},
{3868562625535817ull,10}, {3868562628280320ull,10}, {3868562631024823ull,10}, {7737125253816137ull,10}, {7737125256560640ull,10}, {7737125259305143ull,10}, {15474250493599561ull,10}, {15474250499088567ull,10},
{15474250513121280ull,10}, {30948501006720841ull,10}, {30948501026242560ull,10}, {30948501045764279ull,10}, {61897002032963401ull,10}, {61897002052485120ull,10}, {61897002072006839ull,10}, {6189700205248512ull,11},
{6189700214765941ull,11}, {6189700262839947ull,11}, {12379400410497024ull,11}, {12379400468088459ull,11}, {12379400487123317ull,11}, {24758800820994048ull,11}, {24758800878585483ull,11}, {24758801031838069ull,11},
{49517601641988096ull,11}, {49517601852832117ull,11}, {49517601968014987ull,11}, {99035203283976192ull,11}, {99035203494820213ull,11}, {99035204146873995ull,11}, {4951760260054705ull,12}, {4951760271572992ull,12},
{4951760283091279ull,12}, {9903520543145984ull,12}, {9903520800063153ull,12}, {9903520823099727ull,12}, {19807040829374799ull,12}, {19807041086291968ull,12}, {19807041343209137ull,12}, {39614081355759281ull,12},
{39614082172583936ull,12}, {39614082989408591ull,12}, {79228163528343217ull,12}, {79228164345167872ull,12}, {79228165161992527ull,12}, {3961408698138557ull,13}, {3961408861503488ull,13}, {3961409024868419ull,13},
{7922817559642045ull,13}, {7922817723006976ull,13}, {7922817886371907ull,13}, {15845635282649021ull,13}, {15845635446013952ull,13}, {15845635609378883ull,13}, {31691270728662973ull,13}, {31691270892027904ull,13},
{31691271055392835ull,13}, {63382533030756285ull,13}, {63382533357486147ull,13}, {63382541784055808ull,13}, {3169128839862695ull,14}, {3169129666183168ull,14}, {3169130492503641ull,14}, {6338254211078567ull,14},
{6338255863719513ull,14}, {6338259332366336ull,14}, {12676506606151257ull,14}, {12676513543444903ull,14}, {12676518664732672ull,14}, {25353015028308391ull,14}, {25353025270883929ull,14}, {25353037329465344ull,14},
{50706028240610905ull,14}, {50706052357773735ull,14}, {50706074658930688ull,14}, {5070618798072133ull,15}, {5070621209788416ull,15}, {5070623621504699ull,15}, {10141205648122181ull,15}, {10141210471554747ull,15},
{10141242419576832ull,15}, {20282452891131579ull,15}, {20282484839153664ull,15}, {20282516787175749ull,15}, {40564937730285243ull,15}, {40564969678307328ull,15}, {40565001626329413ull,15}, {81129696426729797ull,15},
{81129939356614656ull,15}, {81130182286499515ull,15}, {4056573041598399ull,16}, {4056579431202816ull,16}, {4056585820807233ull,16}, {8113152472801215ull,16}, {8113158862405632ull,16}, {8113165252010049ull,16},
{16226036457299903ull,16}, {16226049236508737ull,16}, {16226317724811264ull,16}, {32452354182111167ull,16}, {32452635449622528ull,16}, {32452916717133889ull,16}, {64903890120105919ull,16}, {64904452655128641ull,16},
{64905270899245056ull,16}, {3245319798464525ull,17}, {3245483447287808ull,17}, {3245647096111091ull,17}, {6490803245752333ull,17}, {6490966894575616ull,17}, {6491130543398899ull,17}, {12981770140327949ull,17},
{12981933789151232ull,17}, {12982097437974515ull,17}, {25961504906223629ull,17}, {25961832203870195ull,17}, {25963867578302464ull,17}, {51925699782172659ull,17}, {51927735156604928ull,17}, {51929770531037197ull,17},
{5192366440774039ull,18}, {5195819418453609ull,18}, {5196291952869376ull,18}, {10387713324811881ull,18}, {10388658393643415ull,18}, {10392583905738752ull,18}, {20772446206359959ull,18}, {20780297230550633ull,18},
{20785167811477504ull,18}, {41540021831793047ull,18}, {41565465042028137ull,18}, {41570335622955008ull,18}, {83135800664983145ull,18}, {83140671245910016ull,18}, {83145541826836887ull,18}, {4158007678480875ull,19},
{4160551999504384ull,19}, {4163096320527893ull,19}, {8321103999008768ull,19}, {8336151864029675ull,19}, {8341240506076693ull,19}, {16627160132996629ull,19}, {16642207998017536ull,19}, {16657255863038443ull,19},
{33269368131014165ull,19}, {33284415996035072ull,19}, {33299463861055979ull,19}, {66568831992070144ull,19}, {66694521615404565ull,19}, {66724617345446379ull,19}, {3342515348439040ull,20}, {3373672419114287ull,20},
{3381727021941457ull,20}, {6653873626202833ull,20}, {6685030696878080ull,20}, {6716187767553327ull,20}, {13338904323080913ull,20}, {13370061393756160ull,20}, {13401218464431407ull,20}, {26708965716837073ull,20},
{26740122787512320ull,20}, {26771279858187567ull,20}, {53480245575024640ull,20}, {54012038457770705ull,20}, {54074352599121199ull,20}, {5348024557502464ull,21}, {5454383134051677ull,21}, {5804615934374563ull,21},
{10696049115004928ull,21}, {10802407691554141ull,21}, {11715590445298339ull,21}, {21285739653460643ull,21}, {21392098230009856ull,21}, {21498456806559069ull,21}, {42784196460019712ull,21}, {44929637697155747ull,21},
{45142354850254173ull,21}, {85568392920039424ull,21}, {87926551310273885ull,21}, {92217433784545955ull,21}, {5200411286785913ull,22}, {5629499534213120ull,22}, {6058587781640327ull,22}, {10829910820999033ull,22},
{11258999068426240ull,22}, {11688087315853447ull,22}, {17585310262054777ull,22}, {18443486756909191ull,22}, {22517998136852480ull,22}, {40103308398907257ull,22}, {45035996273704960ull,22}, {49968684148502663ull,22},
{76990281912725639ull,22}, {80206616797814514ull,22}, {90071992547409920ull,22}, {3860332650352721ull,23}, {4503599627370496ull,23}, {5146866604388271ull,23}, {8363932277723217ull,23}, {9007199254740992ull,23},
{9650466231758767ull,23}, {17371131532464209ull,23}, {18014398509481984ull,23}, {18657665486499759ull,23}, {36028797018963968ull,23}, {47823973699612699ull,23}, {49110507653648249ull,23}, {72057594037927936ull,23},
{85139304672612217ull,23}, {95647947399225398ull,23}, {5532096002352865ull,24}, {10637296122016736ull,24}, {11795176680648731ull,24}, {12309790262262951ull,24}, {24619580524525902ull,24}, {35642836832753303ull,24},
{60262417357279205ull,24}, {71285673665506606ull,24}, {94361413445189848ull,24}, {98478322098103608ull,24}, {4425676801882292ull,25}, {8656033832801989ull,25}, {11640792606164465ull,25}, {12052483471455841ull,25},
{23281585212328930ull,25}, {24104966942911682ull,25}, {35951604981721835ull,25}, {48209933885823364ull,25}, {71903209963443670ull,25}, {84161538867545199ull,25}, {4656317042465786ull,26}, {5479698773048538ull,26},
{7190320996344367ull,26}, {13081710634684281ull,26}, {14380641992688734ull,26}, {26638970896790263ull,26}, {28761283985377468ull,26}, {41019612889478997ull,26}, {57522567970754936ull,26}, {69780896874856465ull,26},
{5942476648044174ull,27}, {9711553197796883ull,27}, {13956179374971293ull,27}, {17351880316710821ull,27}, {27912358749942586ull,27}, {34703760633421642ull,27}, {55824717499885172ull,27}, {74874448287465757ull,27},
{89950754486476593ull,27}, {95248653937902925ull,27}, {7205647099255645ull,28}, {8034137530808823ull,28}, {10601348040995173ull,28}, {16068275061617646ull,28}, {19049730787580585ull,28}, {32136550123235292ull,28},
{35946496280751409ull,28}, {51186280910815877ull,28}, {71892992561502818ull,28}, {89285742485977047ull,28}, {3809946157516117ull,29}, {5566123906883154ull,29}, {9376070064399271ull,29}, {13285213108176069ull,29},
{16995962379431505ull,29}, {26570426216352138ull,29}, {33991924758863010ull,29}, {54897030182071313ull,29}, {64471494018991946ull,29}, {66227671768358983ull,29}, {6798384951772602ull,30}, {9574463836920633ull,30},
{13596769903545204ull,30}, {20905105423208303ull,30}, {27193539807090408ull,30}, {43566388595783643ull,30}, {52630901864813779ull,30}, {88888954940934323ull,30}, {91834061395278495ull,30}, {98237092732159410ull,30},
{7308335519663099ull,31}, {9064513269030136ull,31}, {9823709273215941ull,31}, {18129026538060272ull,31}, {27952735811276213ull,31}, {36258053076120544ull,31}, {51112509856442169ull,31}, {55905471622552426ull,31},
{73796712419617271ull,31}, {97432057946774081ull,31}, {5334425908780006ull,32}, {6549139515477294ull,32}, {8305317264844331ull,32}, {13098279030954588ull,32}, {16676527190367557ull,32}, {21403596295798919ull,32},
{42807192591597838ull,32}, {47600154357708095ull,32}, {85614385183195676ull,32}, {90407346949305933ull,32}, {9493673807270061ull,33}, {9520030871541619ull,33}, {14247099976972981ull,33}, {19040061743083238ull,33},
{23753952316378821ull,33}, {42820371123733617ull,33}, {61834075802545297ull,33}, {85640742247467234ull,33}, {95015809265515284ull,33}, {95437522293860212ull,33}, {6667975169719867ull,34}, {8542988573329477ull,34},
{10470716105482203ull,34}, {17085977146658954ull,34}, {20941432210964406ull,34}, {37037188527275439ull,34}, {41882864421928812ull,34}, {69439557674069969ull,34}, {83765728843857624ull,34}, {94131016692253595ull,34},
{5115250318289063ull,35}, {6480473829358906ull,35}, {11595724147647969ull,35}, {12960947658717812ull,35}, {18826203338450719ull,35}, {25921895317435624ull,35}, {37652406676901438ull,35}, {53478588569576781ull,35},
{73670015419097343ull,35}, {91130995246478219ull,35}, {7203521748439181ull,36}, {11676596474738676ull,36}, {14407043496878362ull,36}, {21718395014771819ull,36}, {33287161720056219ull,36}, {38963715303244143ull,36},
{56424695130625019ull,36}, {88077058915975705ull,36}, {97364049069828916ull,36}, {97885846524208903ull,36}, {5522121627373659ull,37}, {9409445320041785ull,37}, {11044243254747318ull,37}, {17615411783195141ull,37},
{28659655037942459ull,37}, {35230823566390282ull,37}, {57319310075884918ull,37}, {63890478604332741ull,37}, {80611275442267983ull,37}, {94925114566426367ull,37}, {5614780800862218ull,38}, {6447622963796411ull,38},
{10149628309487419ull,38}, {13975179219829839ull,38}, {20299256618974838ull,38}, {26870425147422661ull,38}, {41678446530186693ull,38}, {52660917002608305ull,38}, {71294489295714757ull,38}, {93259430240557981ull,38},
{8551675964484742ull,39}, {10532183400521661ull,39}, {19083859365006403ull,39}, {21064366801043322ull,39}, {38167718730012806ull,39}, {40148226166049725ull,39}, {54191137366745273ull,39}, {76335437460025612ull,39},
{98121019256431721ull,39}, {99555892443928641ull,39}, {6049137797173026ull,40}, {8029645233209945ull,40}, {10046024498934287ull,40}, {16059290466419890ull,40}, {20092048997868574ull,40}, {32118580932839780ull,40},
{40184097995737148ull,40}, {78315944896062531ull,40}, {80368195991474296ull,40}, {90342476831033737ull,40}, {6423716186567956ull,41}, {6834166405650309ull,41}, {12847432373135912ull,41}, {13668332811300618ull,41},
{25694864746271824ull,41}, {27336665622601236ull,41}, {41415448652984207ull,41}, {51389729492543648ull,41}, {69573014713750149ull,41}, {89521576392869031ull,41}, {3472476956608359ull,42}, {4482252598722600ull,42},
{6944953913216718ull,42}, {11616081715888853ull,42}, {13889907826433436ull,42}, {20580586913334053ull,42}, {25128239134423219ull,42}, {41161173826668106ull,42}, {50379953850429407ull,42}, {82322347653336212ull,42},
{6086278434262105ull,43}, {9823180676399813ull,43}, {13257882592218265ull,43}, {19646361352799626ull,43}, {26515765184436530ull,43}, {38207396981905197ull,43}, {53031530368873060ull,43}, {75329468240116339ull,43},
{81003048021752552ull,43}, {99551106395581790ull,43}, {5303153036887306ull,44}, {5520218181626117ull,44}, {10606306073774612ull,44}, {10823371218513423ull,44}, {21212612147549224ull,44}, {21429677292288035ull,44},
{42642289439837259ull,44}, {42859354584576070ull,44}, {85284578879674518ull,44}, {85501644024413329ull,44}, {4068870313718796ull,45}, {4285935458457607ull,45}, {8354805772176403ull,45}, {8571870916915214ull,45},
{16926676689091617ull,45}, {17143741833830428ull,45}, {33853353378183234ull,45}, {34287483667660856ull,45}, {67706706756366468ull,45}, {68574967335321712ull,45}, {6597018559845598ull,46}, {7031148849323220ull,46},
{13194037119691196ull,46}, {14062297698646440ull,46}, {26388074239382392ull,46}, {34938679101877289ull,46}, {47698585932090863ull,46}, {69877358203754578ull,46}, {85242046770833884ull,46}, {95397171864181726ull,46},
{5624919079458576ull,47}, {8003248329710242ull,47}, {11249838158917152ull,47}, {16006496659420484ull,47}, {22820580364004893ull,47}, {31692089272670379ull,47}, {45320256681839197ull,47}, {63705082591511347ull,47},
{90640513363678394ull,47}, {90961417409848983ull,47}, {4756658500503332ull,48}, {6274237045299958ull,48}, {9192412954836075ull,48}, {12548474090599916ull,48}, {18384825909672150ull,48}, {25417852227370421ull,48},
{36448747773173711ull,48}, {50835704454740842ull,48}, {57868730772439113ull,48}, {87284452227914553ull,48}, {7353930363868860ull,49}, {9974598463245815ull,49}, {14707860727737720ull,49}, {17328528827114675ull,49},
{32036389554852395ull,49}, {34657057654229350ull,49}, {54927158626891569ull,49}, {78459735791271921ull,49}, {95467360572216007ull,49}, {99371644856275318ull,49}, {6407277910970479ull,50}, {6931411530845870ull,50},
{12814555821940958ull,50}, {13862823061691740ull,50}, {25629111643881916ull,50}, {27725646123383480ull,50}, {38967801085698265ull,50}, {55451292246766960ull,50}, {77935602171396530ull,50}, {94419093332465225ull,50},
{3448594745175132ull,51}, {5545129224676696ull,51}, {7793560217139653ull,51}, {11090258449353392ull,51}, {15587120434279306ull,51}, {18883818666493045ull,51}, {31174240868558612ull,51}, {34470939100772351ull,51},
{62348481737117224ull,51}, {68941878201544702ull,51}, {7553527466597218ull,52}, {9473789470936698ull,52}, {15107054933194436ull,52}, {20324015169747655ull,52}, {28837673638514613ull,52}, {42024466567369569ull,52},
{59051783504903485ull,52}, {84048933134739138ull,52}, {93106417379971317ull,52}, {95859289835719835ull,52}, {6593396464427478ull,53}, {8129606067899062ull,53}, {11810356700980697ull,53}, {13186792928854956ull,53},
{19171857967143967ull,53}, {23620713401961394ull,53}, {38343715934287934ull,53}, {47241426803922788ull,53}, {76687431868575868ull,53}, {94482853607845576ull,53}, {4384946084578497ull,54}, {5953110363169546ull,54},
{7329546591043805ull,54}, {13346566304452281ull,54}, {19235767317382897ull,54}, {22116458473609275ull,54}, {31014169343244129ull,54}, {44232916947218550ull,54}, {88465833894437100ull,54}, {95923199185958765ull,54},
{8846583389443710ull,55}, {10338056447748043ull,55}, {17693166778887420ull,55}, {19184639837191753ull,55}, {35386333557774840ull,55}, {38369279674383506ull,55}, {70772667115549680ull,55}, {76738559348767012ull,55},
{91653289931810342ull,55}, {92735743148585523ull,55}, {4474419174912999ull,56}, {7077266711554968ull,56}, {11551685886467967ull,56}, {14154533423109936ull,56}, {25706219309577903ull,56}, {28309066846219872ull,56},
{54015286155797775ull,56}, {56618133692439744ull,56}, {70714824592424770ull,56}, {97619182165027674ull,56}, {4100104847258793ull,57}, {6702952383900762ull,57}, {10803057231159555ull,57}, {13405904767801524ull,57},
{21606114462319110ull,57}, {24208961998961079ull,57}, {43212228924638220ull,57}, {45815076461280189ull,57}, {58483921078398283ull,57}, {91630152922560378ull,57}, {8642445784927644ull,58}, {11245293321569613ull,58},
{15861340274306807ull,58}, {17284891569855288ull,58}, {33146231844162095ull,58}, {34569783139710576ull,58}, {54457522246207833ull,58}, {69139566279421152ull,58}, {94233000459202347ull,58}, {99927205641396271ull,58},
{4831678598628540ull,59}, {6629246368832419ull,59}, {11460924967460959ull,59}, {13258492737664838ull,59}, {22921849934921918ull,59}, {24719417705125797ull,59}, {49438835410251594ull,59}, {64120879443464913ull,59},
{77005355706474353ull,59}, {98877670820503188ull,59}, {3865342878902832ull,60}, {5662910649106711ull,60}, {11325821298213422ull,60}, {12105148780611431ull,60}, {18277179573621077ull,60}, {28584760584028629ull,60},
{32179896124436387ull,60}, {57169521168057258ull,60}, {80600491246882111ull,60}, {89349417292493645ull,60}, {7934333815366838ull,61}, {9935549643131891ull,61}, {15868667630733676ull,61}, {17869883458498729ull,61},
{33738551089232405ull,61}, {35739766916997458ull,61}, {55982897570536901ull,61}, {71479533833994916ull,61}, {95956068518953378ull,61}, {96982249236278196ull,61}, {5649598792919931ull,62}, {6747710217846481ull,62},
{11299197585839862ull,62}, {16594747688384565ull,62}, {21695290768841221ull,62}, {33189495376769130ull,62}, {42487477134843939ull,62}, {54884786145610351ull,62}, {84974954269687878ull,62}, {98275367683292793ull,62},
{5759409935412586ull,63}, {6637899075353826ull,63}, {8858737188104189ull,63}, {13275798150707652ull,63}, {26551596301415304ull,63}, {29211678984136287ull,63}, {55763275285551591ull,63}, {58423357968272574ull,63},
{75237727941642449ull,63}, {80557893307084415ull,63}, {6022956677394958ull,64}, {10088621984021925ull,64}, {16111578661416883ull,64}, {20177243968043850ull,64}, {32223157322833766ull,64}, {36288822629460733ull,64},
{49740318608156633ull,64}, {87283641296432365ull,64}, {96367306838319328ull,64}, {99480637216313266ull,64}, {8070897587217540ull,65}, {9385830672068933ull,65}, {16141795174435080ull,65}, {17456728259286473ull,65},
{33598523433721553ull,65}, {34913456518572946ull,65}, {44359720216678273ull,65}, {69826913037145892ull,65}, {88719440433356546ull,65}, {93979172772762118ull,65}, {4782105526294130ull,66}, {6456718069774032ull,66},
{9923890511216769ull,66}, {12913436139548064ull,66}, {19847781022433538ull,66}, {25826872279096128ull,66}, {34076150246832995ull,66}, {57273156356226337ull,66}, {85729894805025251ull,66}, {96968718401093413ull,66},
{6815230049366599ull,67}, {9206866552031635ull,67}, {18413733104063270ull,67}, {21641508399432315ull,67}, {28816417907427423ull,67}, {43283016798864630ull,67}, {56077338104893819ull,67}, {86566033597729260ull,67},
{97688077318350431ull,67}, {99710694530099422ull,67}, {7365493241625308ull,68}, {8656603359772926ull,68}, {14730986483250616ull,68}, {17313206719545852ull,68}, {25324255020244969ull,68}, {38764131385347967ull,68},
{50648510040489938ull,68}, {73390544824439671ull,68}, {78554985297030143ull,68}, {86830421189542669ull,68}, {4442651920064583ull,69}, {6719938182551499ull,69}, {9302158418846735ull,69}, {13439876365102998ull,69},
{18604316837693470ull,69}, {26462898151488427ull,69}, {37625488254104509ull,69}, {52508941724259285ull,69}, {75250976508209018ull,69}, {89717575399646225ull,69}, {7858581313794957ull,70}, {10501788344851857ull,70},
{21003576689703714ull,70}, {24063638299478183ull,70}, {45067214989181897ull,70}, {48127276598956366ull,70}, {90134429978363794ull,70}, {96254553197912732ull,70}, {99645694412874618ull,70}, {99864164847619367ull,70},
{5062840407126178ull,71}, {7177406031971698ull,71}, {14354812063943396ull,71}, {15300308048872345ull,71}, {23534996893266803ull,71}, {28709624127886792ull,71}, {40004374582055719ull,71}, {64484867460251471ull,71},
{80008749164111438ull,71}, {94139987573067212ull,71}, {4328800984681781ull,72}, {6120123219548938ull,72}, {8657601969363562ull,72}, {8757271704354303ull,72}, {17315203938727124ull,72}, {17514543408708606ull,72},
{34630407877454248ull,72}, {35029086817417212ull,72}, {65777841020164923ull,72}, {66575198900090851ull,72}, {4856230681642854ull,73}, {5592693522587865ull,73}, {7702412310432157ull,73}, {9712461363285708ull,73},
{15404824620864314ull,73}, {15941947991827843ull,73}, {27326674506985055ull,73}, {28400921248912113ull,73}, {51170374279226537ull,73}, {53318867763080653ull,73}, {5465334901397011ull,74}, {8466564037577281ull,74},
{10930669802794022ull,74}, {13450153340410989ull,74}, {21861339605588044ull,74}, {23417331946078405ull,74}, {43351689157413237ull,74}, {43722679211176088ull,74}, {87074368368589325ull,74}, {87445358422352176ull,74},
{4683466389215681ull,75}, {5765457815015038ull,75}, {9366932778431362ull,75}, {11530915630030076ull,75}, {17414873673717865ull,75}, {23061831260060152ull,75}, {34829747347435730ull,75}, {47442654403265163ull,75},
{69659494694871460ull,75}, {82272401750700893ull,75}, {3482974734743573ull,76}, {5477959392651516ull,76}, {6965949469487146ull,76}, {12274910668447891ull,76}, {13931898938974292ull,76}, {24549821336895782ull,76},
{27863797877948584ull,76}, {49099642673791564ull,76}, {55727595755897168ull,76}, {85586378291753695ull,76}, {6370753438752894ull,77}, {6499353260429249ull,77}, {12998706520858498ull,77}, {17117275658350739ull,77},
{34234551316701478ull,77}, {38610320097546429ull,77}, {68469102633402956ull,77}, {72844871414247907ull,77}, {86486577043488180ull,77}, {97556286239201353ull,77}, {4221448994833325ull,78}, {4324328852174409ull,78},
{8648657704348818ull,78}, {12818666770511601ull,78}, {25637333541023202ull,78}, {30013102321868153ull,78}, {38558880168875887ull,78}, {60026204643736306ull,78}, {77117760337751774ull,78}, {98585084812612193ull,78},
{3377159195866660ull,79}, {6167228236119365ull,79}, {6754318391733320ull,79}, {13127306342534853ull,79}, {13508636783466640ull,79}, {26254612685069706ull,79}, {27017273566933280ull,79}, {53302075240435535ull,79},
{54034547133866560ull,79}, {99468501648205963ull,79}, {5403454713386656ull,80}, {10660415048087107ull,80}, {10806909426773312ull,80}, {21320830096174214ull,80}, {34506289133835895ull,80}, {36091988874428141ull,80},
{52948708506198027ull,80}, {69012578267671790ull,80}, {86662147769737799ull,80}, {93004946732106783ull,80}, {4639903718827774ull,81}, {6901257826767179ull,81}, {9279807437655548ull,81}, {13802515653534358ull,81},
{18559614875311096ull,81}, {31452085155600367ull,81}, {37119229750622192ull,81}, {66751224159732385ull,81}, {73094023122101369ull,81}, {95031909834148260ull,81}, {4751595491707413ull,82}, {6789566053887540ull,82},
{9732078259243429ull,82}, {13350244831946477ull,82}, {19235269242658255ull,82}, {26700489663892954ull,82}, {38241651209487907ull,82}, {53400979327785908ull,82}, {76254415143147211ull,82}, {76483302418975814ull,82},
{7694107697063302ull,83}, {10634418410391461ull,83}, {15388215394126604ull,83}, {21268836820782922ull,83}, {24666922085768287ull,83}, {36428164939080923ull,83}, {54985578322364289ull,83}, {72856329878161846ull,83},
{92100405088931021ull,83}, {96836590136444324ull,83}, {4750274596490775ull,84}, {8599089638644610ull,84}, {9500549192981550ull,84}, {17198179277289220ull,84}, {23307687979774141ull,84}, {25568381640105227ull,84},
{35526705384743983ull,84}, {62225433855014753ull,84}, {71053410769487966ull,84}, {86663468664954437ull,84}, {3800219677192620ull,85}, {6879271710915688ull,85}, {8009618541081231ull,85}, {13758543421831376ull,85},
{16019237082162462ull,85}, {21768161962912607ull,85}, {43536323925825214ull,85}, {48466890433183377ull,85}, {87072647851650428ull,85}, {92003214359008591ull,85}, {5748924880750145ull,86}, {10679491388108308ull,86},
{11829276364258337ull,86}, {16428416268858453ull,86}, {32856832537716906ull,86}, {37787399045075069ull,86}, {70644231582791975ull,86}, {75574798090150138ull,86}, {89703644406708533ull,86}, {96913364599360483ull,86},
{4599139904600116ull,87}, {6703937148646600ull,87}, {13407874297293200ull,87}, {14128846316558395ull,87}, {28257692633116790ull,87}, {33188259140474953ull,87}, {50142874720345027ull,87}, {56515385266233580ull,87},
{74190972865368849ull,87}, {93913238894801501ull,87}, {5363149718917280ull,88}, {5651538526623358ull,88}, {10726299437834560ull,88}, {11303077053246716ull,88}, {22606154106493432ull,88}, {27825109421557673ull,88},
{38839797667098311ull,88}, {45212308212986864ull,88}, {60869174158179587ull,88}, {90424616425973728ull,88}, {8229381625749387ull,89}, {8581039550267648ull,89}, {13799994865331889ull,89}, {19820847486702181ull,89},
{24237905495460371ull,89}, {39641694973404362ull,89}, {48475810990920742ull,89}, {75921305711605317ull,89}, {97500442820898803ull,89}, {98049263659956122ull,89}, {6192414793173437ull,90}, {7255922147640191ull,90},
{12384829586346874ull,90}, {17873928530483789ull,90}, {23534589646423849ull,90}, {35747857060967578ull,90}, {47069179292847698ull,90}, {72730783648205055ull,90}, {92903289059425497ull,90}, {94138358585695396ull,90},
{4459904024030790ull,91}, {6792793339128072ull,91}, {12350517151986245ull,91}, {14546156729641011ull,91}, {19074685622393059ull,91}, {29092313459282022ull,91}, {32523022563206687ull,91}, {58184626918564044ull,91},
{65046045126413374ull,91}, {90707649481770731ull,91}, {7135846438449264ull,92}, {9880413721588996ull,92}, {14271692876898528ull,92}, {22642608841617691ull,92}, {31150738921636821ull,92}, {36914301718516219ull,92},
{48166999081675081ull,92}, {62301477843273642ull,92}, {96333998163350162ull,92}, {98941351331189927ull,92}, {4967663932711511ull,93}, {9166814828887050ull,93}, {9413857231855069ull,93}, {18333629657774100ull,93},
{18827714463710138ull,93}, {37188729949116153ull,93}, {37655428927420276ull,93}, {74898930531800259ull,93}, {75310857854840552ull,93}, {98996122986453757ull,93}, {4182719399596390ull,94}, {7333451863109640ull,94},
{7843968165624827ull,94}, {14666903726219280ull,94}, {21467930624708201ull,94}, {22510871891844107ull,94}, {32984101887414231ull,94}, {45021743783688214ull,94}, {65968203774828462ull,94}, {78005845671102445ull,94},
{7431173391191571ull,95}, {10994700629138077ull,95}, {15601169134220489ull,95}, {21989401258276154ull,95}, {37590570392496643ull,95}, {43978802516552308ull,95}, {75181140784993286ull,95}, {87957605033104616ull,95},
{97301126564509669ull,95}, {99256424577541252ull,95}, {5849408051081879ull,96}, {9482349046651717ull,96}, {11498817823300197ull,96}, {18964698093303434ull,96}, {22997635646600394ull,96}, {35574101615848163ull,96},
{45995271293200788ull,96}, {73903494360182153ull,96}, {86479960329429922ull,96}, {89235251457915749ull,96}, {3968469592077489ull,97}, {7665878548866798ull,97}, {10692230312640805ull,97}, {15331757097733596ull,97},
{21384460625281610ull,97}, {26023987410374401ull,97}, {36245158808863465ull,97}, {42768921250563220ull,97}, {72490317617726930ull,97}, {79014080059426685ull,97}, {7249031761772693ull,98}, {8553784250112644ull,98},
{14498063523545386ull,98}, {15802816011885337ull,98}, {30300879535430723ull,98}, {31605632023770674ull,98}, {61906511559201397ull,98}, {63211264047541348ull,98}, {98548752994959080ull,98}, {99912088506606023ull,98},
{5277324414082174ull,99}, {6582076902422125ull,99}, {11859401316504299ull,99}, {13164153804844250ull,99}, {23718802633008598ull,99}, {26328307609688500ull,99}, {47437605266017196ull,99}, {52656615219377000ull,99},
{85508685270765255ull,99}, {94875210532034392ull,99}, {5265661521937700ull,100}, {6617065578855547ull,100}, {10531323043875400ull,100}, {14492232077473149ull,100}, {21062646087750800ull,100}, {25023555121348549ull,100},
{46086201209099349ull,100}, {50047110242697098ull,100}, {66263958925711262ull,100}, {96133311451796447ull,100}, {3709288849645338ull,101}, {4212529217550160ull,101}, {8425058435100320ull,101}, {12385967468698069ull,101},
{16850116870200640ull,101}, {20811025903798389ull,101}, {33700233740401280ull,101}, {41622051807596778ull,101}, {67400467480802560ull,101}, {83244103615193556ull,101}, {6740046748080256ull,102}, {9103589386310740ull,102},
{10700955781678005ull,102}, {13480093496160512ull,102}, {24181049277838517ull,102}, {26960186992321024ull,102}, {48362098555677034ull,102}, {51141236270159541ull,102}, {86153269148957717ull,102}, {96724197111354068ull,102},
{4280382312671202ull,103}, {7059520027153709ull,103}, {8560764625342404ull,103}, {11339902339824911ull,103}, {17121529250684808ull,103}, {22679804679649822ull,103}, {34243058501369616ull,103}, {59702000895501945ull,103},
{68486117002739232ull,103}, {90719218718599288ull,103}, {4357279750414058ull,104}, {5181129071584419ull,104}, {10362258143168838ull,104}, {11940400179100389ull,104}, {22302658322269227ull,104}, {23880800358200778ull,104},
{46183458680470005ull,104}, {47761600716401556ull,104}, {93945059396871561ull,104}, {95523201432803112ull,104}, {5709133971917252ull,105}, {9236691736094001ull,105}, {18473383472188002ull,105}, {20051525508119553ull,105},
{25157225308227853ull,105}, {40103051016239106ull,105}, {50314450616455706ull,105}, {80206102032478212ull,105}, {88003764945459004ull,105}, {88839359596763261ull,105}, {5662701876018191ull,106}, {6126839760129960ull,106},
{11325403752036382ull,106}, {15874101476234791ull,106}, {22650807504072764ull,106}, {27199505228271173ull,106}, {42609468820394195ull,106}, {57091156644293679ull,106}, {73429396004640239ull,106}, {90603230016291056ull,106},
{3620421955974871ull,107}, {4901471808103968ull,107}, {7240843911949742ull,107}, {8521893764078839ull,107}, {15762737676028581ull,107}, {17043787528157678ull,107}, {32806525204186259ull,107}, {34087575056315356ull,107},
{65613050408372518ull,107}, {90473183532797917ull,107}, {6048885099985613ull,108}, {7329934952114710ull,108}, {12097770199971226ull,108}, {19119476588262861ull,108}, {22298033420167205ull,108}, {38238953176525722ull,108},
{44596066840334410ull,108}, {78375413332826691ull,108}, {87294626700893573ull,108}, {89192133680668820ull,108}, {4459606684033441ull,109}, {5863947961691768ull,109}, {8919213368066882ull,109}, {11727895923383536ull,109},
{17838426736133764ull,109}, {30970663937175627ull,109}, {35676853472267528ull,109}, {61941327874351254ull,109}, {71353706944535056ull,109}, {90103309256210227ull,109}, {4706189535091901ull,110}, {5814631391480076ull,110},
{7909404652102091ull,110}, {13132237201041863ull,110}, {16532718598898821ull,110}, {26264474402083726ull,110}, {33065437197797642ull,110}, {51815039509472813ull,110}, {60832886017963079ull,110}, {91606283674291938ull,110},
{7958248832963825ull,111}, {9017846508490266ull,111}, {15916497665927650ull,111}, {16976095341454091ull,111}, {32892593007381741ull,111}, {33952190682908182ull,111}, {65785186014763482ull,111}, {66844783690289923ull,111},
{87300295373093069ull,111}, {99782441763733734ull,111}, {6366599066371060ull,112}, {7426196741897501ull,112}, {12733198132742120ull,112}, {13792795808268561ull,112}, {25466396265484240ull,112}, {26525993941010681ull,112},
{50932792530968480ull,112}, {53051987882021362ull,112}, {71442382293046110ull,112}, {86653983677491535ull,112}, {5093279253096848ull,113}, {6152876928623289ull,113}, {7144238229304611ull,113}, {10186558506193696ull,113},
{14288476458609222ull,113}, {17330796735498307ull,113}, {28576952917218444ull,113}, {34661593470996614ull,113}, {69323186941993228ull,113}, {88773179028544417ull,113}, {6693104609155987ull,114}, {10323031255883934ull,114},
{13386209218311974ull,114}, {20666920197306823ull,114}, {26751560751084993ull,114}, {31619273194107529ull,114}, {63238546388215058ull,114}, {87556250917788783ull,114}, {92423963360811319ull,114}, {97229102747216990ull,114},
{7293225590318222ull,115}, {7297397127426013ull,115}, {9722910274721699ull,115}, {14594794254852026ull,115}, {24317704529573725ull,115}, {29189588509704052ull,115}, {53507293039277777ull,115}, {58379177019408104ull,115},
{72978142811367921ull,115}, {97270818118294900ull,115}, {4863540905914745ull,116}, {5844592161313276ull,116}, {9727081811829490ull,116}, {10708133067228021ull,116}, {19454163623658980ull,116}, {24326047603789307ull,116},
{38908327247317960ull,116}, {43780211227448287ull,116}, {82688538474766247ull,116}, {87560422454896574ull,116}, {6617752861730286ull,117}, {7781665449463592ull,117}, {13235505723460572ull,117}, {15563330898927184ull,117},
{31126661797854368ull,117}, {35998545777984695ull,117}, {71997091555969390ull,117}, {81524625887032941ull,117}, {95924044198226819ull,117}, {96356511456621025ull,117}, {6182085633731453ull,118}, {7199709155596939ull,118},
{10545157852929037ull,118}, {14399418311193878ull,118}, {21090315705858074ull,118}, {28798836622387756ull,118}, {42180631411716148ull,118}, {57597673244775512ull,118}, {82542249408898427ull,118}, {84361262823432296ull,118},
{3854260458264841ull,119}, {6123570007384325ull,119}, {7708520916529682ull,119}, {12247140014768650ull,119}, {17236055247593233ull,119}, {22675266615003431ull,119}, {34472110495186466ull,119}, {52608758011950929ull,119},
{61685996208428865ull,119}, {97959291241957791ull,119}, {7618461689612559ull,120}, {9797712011814920ull,120}, {12337199241685773ull,120}, {22495148161169185ull,120}, {24674398483371546ull,120}, {44990296322338370ull,120},
{52248521104282437ull,120}, {89980592644676740ull,120}, {95762212043564021ull,120}, {98697593933486184ull,120}, {8418114436959805ull,121}, {8998059264467674ull,121}, {17416173701427479ull,121}, {17996118528935348ull,121},
{34832347402854958ull,121}, {35992237057870696ull,121}, {69664694805709916ull,121}, {71984474115741392ull,121}, {77783922390820082ull,121}, {96957759450962577ull,121}, {4059613792555083ull,122}, {6734491549567844ull,122},
{9634215687107189ull,122}, {13468983099135688ull,122}, {23103198786242877ull,122}, {26937966198271376ull,122}, {33092512920331351ull,122}, {50041164984514253ull,122}, {62350258428634203ull,122}, {96247562557000007ull,122},
{7385456066471970ull,123}, {8474326032091451ull,123}, {16948652064182902ull,123}, {20783419476211401ull,123}, {37732071540394303ull,123}, {41566838952422802ull,123}, {59604360982225185ull,123}, {83133677904845604ull,123},
{95679405041829951ull,123}, {99703952712740974ull,123}, {5908364853177576ull,124}, {6012507343267461ull,124}, {11816729706355152ull,124}, {11920872196445037ull,124}, {23841744392890074ull,124}, {31615421707036957ull,124},
{55457166099927031ull,124}, {71421090688580337ull,124}, {78986483022547450ull,124}, {95366977571560296ull,124}, {3811615137289791ull,125}, {7586220831985090ull,125}, {7898648302254745ull,125}, {7981962294326653ull,125},
{15963924588653306ull,125}, {23737601902800189ull,125}, {31927849177306612ull,125}, {55415509103891077ull,125}, {71462747684616291ull,125}, {94950407611200756ull,125}, {6318918641803796ull,126}, {9561691954777602ull,126},
{12637837283607592ull,126}, {23820915894872097ull,126}, {25275674567215184ull,126}, {47641831789744194ull,126}, {68219974371642485ull,126}, {77615038342276271ull,126}, {98859692860749826ull,126}, {99558153226615135ull,126},
{6709847166758703ull,127}, {6934147707569794ull,127}, {13643994874328497ull,127}, {13868295415139588ull,127}, {27736590830279176ull,127}, {36458753178479689ull,127}, {46302418230735657ull,127}, {72917506356959378ull,127},
{83434073031648619ull,127}, {99981195564805281ull,127}, {5278157517082526ull,128}, {5726758598704708ull,128}, {9619364511444877ull,128}, {10556315034165052ull,128}, {17404576336925215ull,128}, {30283393498152799ull,128},
{34848901033326241ull,128}, {60566786996305598ull,128}, {69697802066652482ull,128}, {95415688029631839ull,128}, {9170763429822695ull,129}, {11379696324875304ull,129}, {18341526859645390ull,129}, {20550459754697999ull,129},
{36683053719290780ull,129}, {38891986614343389ull,129}, {60901818845917857ull,129}, {90248261821350481ull,129}, {99901594238534213ull,129}, {99987028322201960ull,129}, {5727326183346459ull,130}, {7336610743858156ull,130},
{13063936927204615ull,130}, {14673221487716312ull,130}, {27737158414920927ull,130}, {29346442975432624ull,130}, {55474316829841854ull,130}, {75575040333634169ull,130}, {90847910155891393ull,130}, {97285048397938181ull,130},
{5225574770881846ull,131}, {6834859331393543ull,131}, {9649573962028623ull,131}, {14471294242522155ull,131}, {19299147924057246ull,131}, {28942588485044310ull,131}, {36181302306826167ull,131}, {57885176970088620ull,131},
{72362604613652334ull,131}, {86026189875397861ull,131}, {5788517697008862ull,132}, {6271916405266527ull,132}, {11577035394017724ull,132}, {12060434102275389ull,132}, {23154070788035448ull,132}, {23637469496293113ull,132},
{30710961481294709ull,132}, {47274938992586226ull,132}, {77985900473880935ull,132}, {94549877985172452ull,132}, {5124026307531249ull,133}, {10086434820638806ull,133}, {15597180094776187ull,133}, {15983899061382319ull,133},
{31194360189552374ull,133}, {31967798122764638ull,133}, {47371618734237759ull,133}, {62388720379104748ull,133}, {91649485735626462ull,133}, {94743237468475518ull,133}, {6084184451268022ull,134}, {6857622384480286ull,134},
{12168368902536044ull,134}, {15790539578079253ull,134}, {27958908480615297ull,134}, {31581079156158506ull,134}, {55917816961230594ull,134}, {59539987636773803ull,134}, {78179259957184001ull,134}, {85423601308270419ull,134},
{3418479290797134ull,135}, {4761663772475587ull,135}, {9523327544951174ull,135}, {10459129257137477ull,135}, {19982456802088651ull,135}, {20918258514274954ull,135}, {31784770540904581ull,135}, {50016660091822629ull,135},
{55389398018536441ull,135}, {91853177120372537ull,135}, {5982633423306395ull,136}, {10377652703239047ull,136}, {15098578198765419ull,136}, {17621994054325465ull,136}, {27063845045378209ull,136}, {38377299460803559ull,136},
{57261001442909047ull,136}, {76754598921607118ull,136}, {84934741984879839ull,136}, {98855446125054949ull,136}, {5656727207712675ull,137}, {7048797621730186ull,137}, {12705524829442861ull,137}, {14097595243460372ull,137},
{22277738306733093ull,137}, {31328501839073373ull,137}, {38638024433278535ull,137}, {62657003678146746ull,137}, {71358596686369419ull,137}, {95726746455355237ull,137}, {4525381766170140ull,138}, {5012375826953623ull,138},
{7727604886655707ull,138}, {11347910299591819ull,138}, {15455209773311414ull,138}, {22695820599183638ull,138}, {30910419546622828ull,138}, {51309093378554927ull,138}, {61820839093245656ull,138}, {94054417285553057ull,138},
{7894837803635925ull,139}, {8549064781399626ull,139}, {16443902585035551ull,139}, {17098129562799252ull,139}, {23015581742986903ull,139}, {32887805170071102ull,139}, {46031163485973806ull,139}, {76956287722753805ull,139},
{86828511149838004ull,139}, {92062326971947612ull,139}, {4864807139702861ull,140}, {6315870242908740ull,140}, {9729614279405722ull,140}, {15391257544550761ull,140}, {30782515089101522ull,140}, {33542032147834803ull,140},
{41963192471713123ull,140}, {67084064295669606ull,140}, {83926384943426246ull,140}, {94964453178359370ull,140}, {4443749123508945ull,141}, {5052696194326992ull,141}, {9496445317835937ull,141}, {10105392388653984ull,141},
{18992890635671874ull,141}, {26338765965592577ull,141}, {37985781271343748ull,141}, {45331656601264451ull,141}, {71061475496038981ull,141}, {95573400249177417ull,141}, {6127981188284609ull,142}, {10527804290216203ull,142},
{11273944967239515ull,142}, {21055608580432406ull,142}, {22547889934479030ull,142}, {43093234570194515ull,142}, {81353403053948793ull,142}, {83317437872608199ull,142}, {90191559737916120ull,142}, {96988660643015763ull,142},
{4509577986895806ull,143}, {8618646914038903ull,143}, {15092259719594115ull,143}, {17056294538253521ull,143}, {24111415693385727ull,143}, {34112589076507042ull,143}, {42149727640968951ull,143}, {48222831386771454ull,143},
{84299455281937902ull,143}, {96445662773542908ull,143}, {3964269495283669ull,144}, {6036903887837646ull,144}, {10001173383121315ull,144}, {12073807775675292ull,144}, {14074042452299555ull,144}, {22074981158796607ull,144},
{28148084904599110ull,144}, {44149962317593214ull,144}, {56296169809198220ull,144}, {70225412829638347ull,144}, {5629616980919822ull,145}, {8000938706497052ull,145}, {11259233961839644ull,145}, {20445833531125311ull,145},
{22518467923679288ull,145}, {31705067492964955ull,145}, {45036935847358576ull,145}, {45335623180381829ull,145}, {90073871694717152ull,145}, {90671246360763658ull,145}, {6341013498592991ull,146}, {7939383546031522ull,146},
{12682026997185982ull,146}, {16177454425086297ull,146}, {25364053994371964ull,146}, {28859481422272279ull,146}, {39644451038996477ull,146}, {50728107988743928ull,146}, {79288902077992954ull,146}, {83381704171939775ull,146},
{3895825580457125ull,147}, {6590456703243820ull,147}, {7689940341380693ull,147}, {13180913406487640ull,147}, {16676340834387955ull,147}, {19472682776708207ull,147}, {38945365553416414ull,147}, {54223535416644243ull,147},
{66705363337551820ull,147}, {93168900970060657ull,147}, {6670536333755182ull,148}, {10326123022678221ull,148}, {13341072667510364ull,148}, {20870853747868333ull,148}, {30337732023943767ull,148}, {38086120806813627ull,148},
{49271488576094635ull,148}, {87576217085420153ull,148}, {95324605868290013ull,148}, {98542977152189270ull,148}, {5423872148008902ull,149}, {9079458836931941ull,149}, {9854297715218927ull,149}, {12953653228366871ull,149},
{19708595430437854ull,149}, {25907306456733742ull,149}, {51814612913467484ull,149}, {57019877358964495ull,149}, {86026539328846181ull,149}, {96437068219840203ull,149}, {4982771975186973ull,150}, {6421203496605926ull,150},
{11403975471792899ull,150}, {12842406993211852ull,150}, {22807950943585798ull,150}, {24246382465004751ull,150}, {45615901887171596ull,150}, {47054333408590549ull,150}, {60341725342422477ull,150}, {94108666817181098ull,150},
{8547807768866738ull,151}, {9986239290285691ull,151}, {17095615537733476ull,151}, {19972478580571382ull,151}, {28013215389082809ull,151}, {33766941474758621ull,151}, {49848415091781475ull,151}, {67533882949517242ull,151},
{97999671780729626ull,151}, {99696830183562950ull,151}, {6668530374810058ull,152}, {8073849352370219ull,152}, {9969683018356295ull,152}, {14742379727180277ull,152}, {19939366036712590ull,152}, {29484759454360554ull,152},
{43246109804689001ull,152}, {58969518908721108ull,152}, {86492219609378002ull,152}, {89859597340641823ull,152}, {3987873207342518ull,153}, {6570427437124875ull,153}, {7975746414685036ull,153}, {14938585602550643ull,153},
{22914332017235679ull,153}, {26509793473837465ull,153}, {35270363390003965ull,153}, {53019586947674930ull,153}, {70540726780007930ull,153}, {88289950337678895ull,153}, {7054072678000793ull,154}, {10603917389534986ull,154},
{14108145356001586ull,154}, {17657990067535779ull,154}, {31766135423537365ull,154}, {35315980135071558ull,154}, {63532270847074730ull,154}, {67082115558608923ull,154}, {97305543053586187ull,154}, {98665784001875916ull,154},
{6353227084707473ull,155}, {7846151761429299ull,155}, {12706454169414946ull,155}, {16256298880949139ull,155}, {25412908338829892ull,155}, {32512597761898278ull,155}, {50825816677659784ull,155}, {65025195523796556ull,155},
{86888259151092255ull,155}, {88016249867273337ull,155}, {4856983524529762ull,156}, {6728117695615872ull,156}, {10277962407150065ull,156}, {12892240033141203ull,156}, {17377651830218451ull,156}, {20555924814300130ull,156},
{34755303660436902ull,156}, {61103779084809849ull,156}, {69510607320873804ull,156}, {72688880304955483ull,156}, {8222369925720052ull,157}, {11585101220145634ull,157}, {16444739851440104ull,157}, {23170202440291268ull,157},
{32889479702880208ull,157}, {46340404880582536ull,157}, {49518677864664215ull,157}, {92680809761165072ull,157}, {99037355729328430ull,157}, {99605262137762730ull,157}, {5306586746943370ull,158}, {9534818952245037ull,158},
{9903735572932843ull,158}, {10613173493886740ull,158}, {19807471145865686ull,158}, {20516909066819583ull,158}, {40324380212685269ull,158}, {41033818133639166ull,158}, {80648760425370538ull,158}, {82067636267278332ull,158},
{4245269397554696ull,159}, {7769742745986809ull,159}, {8490538795109392ull,159}, {15539485491973618ull,159}, {16981077590218784ull,159}, {30414965575668083ull,159}, {33962155180437568ull,159}, {47396043165886867ull,159},
{67924310360875136ull,159}, {94792086331773734ull,159}, {4531316191569992ull,160}, {5515442778370499ull,160}, {10046758969940491ull,160}, {11030885556740998ull,160}, {20093517939880982ull,160}, {21077644526681489ull,160},
{40187035879761964ull,160}, {41171162466562471ull,160}, {64102432090259041ull,160}, {98613964602389829ull,160}, {7643756541232190ull,161}, {8627883128032697ull,161}, {13214137052772011ull,161}, {19329142285757763ull,161},
{22386644902250639ull,161}, {26428274105544022ull,161}, {44773289804501278ull,161}, {69128187880352931ull,161}, {89441456752911201ull,161}, {89546579609002556ull,161}, {6093980661767481ull,162}, {6115005232985752ull,162},
{12187961323534962ull,162}, {12208985894753233ull,162}, {24396947218288195ull,162}, {24417971789506466ull,162}, {48793894436576390ull,162}, {48814919007794661ull,162}, {65065534105841277ull,162}, {97629838015589322ull,162},
{4879389443657639ull,163}, {4900414014875910ull,163}, {9758778887315278ull,163}, {9779803458533549ull,163}, {13046746135117489ull,163}, {19517557774630556ull,163}, {26093492270234978ull,163}, {45547976331210721ull,163},
{58615747037546481ull,163}, {91095952662421442ull,163}, {6470811639513067ull,164}, {9126414923216761ull,164}, {11655870779610829ull,164}, {19538582345848827ull,164}, {27337195627213741ull,164}, {29908700626044351ull,164},
{42934422189943569ull,164}, {54674391254427482ull,164}, {87322793449048611ull,164}, {97608813444371051ull,164}, {4371558498012037ull,165}, {7882711566237998ull,165}, {13282872063782279ull,165}, {14311474063314523ull,165},
{26565744127564558ull,165}, {28622948126629046ull,165}, {41391519190645203ull,165}, {57245896253258092ull,165}, {82783038381290406ull,165}, {98637415443903295ull,165}, {4901708025700014ull,166}, {5022359011680617ull,166},
{9803416051400028ull,166}, {9924067037380631ull,166}, {19606832102800056ull,166}, {19727483088780659ull,166}, {31346801167283969ull,166}, {47321829215877461ull,166}, {55068041268213001ull,166}, {94643658431754922ull,166},
{6317620627849035ull,167}, {9416105448783251ull,167}, {12635241255698070ull,167}, {18832210897566502ull,167}, {25270482511396140ull,167}, {42432800012514931ull,167}, {50540965022792280ull,167}, {77240038958674925ull,167},
{85830807912874686ull,167}, {99170734677175643ull,167}, {5054096502279228ull,168}, {5625533072073830ull,168}, {10108193004558456ull,168}, {15448007791734985ull,168}, {20216386009116912ull,168}, {30896015583469970ull,168},
{40432772018233824ull,168}, {61792031166939940ull,168}, {80865544036467648ull,168}, {93830919889999114ull,168}, {3893456837515586ull,169}, {6179203116693994ull,169}, {7554494965657185ull,169}, {12358406233387988ull,169},
{16555347880975313ull,169}, {24716812466775976ull,169}, {41272160347751289ull,169}, {49433624933551952ull,169}, {67667749473562195ull,169}, {98867249867103904ull,169}, {6043595972525748ull,170}, {10175996576642579ull,170},
{13533549894712439ull,170}, {20351993153285158ull,170}, {33885543047997597ull,170}, {39257628356909373ull,170}, {60952642837422475ull,170}, {78515256713818746ull,170}, {93598501180625127ull,170}, {94631512640554074ull,170},
{4628274486034809ull,171}, {7562254081449686ull,171}, {12190528567484495ull,171}, {15124508162899372ull,171}, {24381057134968990ull,171}, {27315036730383867ull,171}, {48762114269937980ull,171}, {61448516719340453ull,171},
{90705785281303241ull,171}, {97524228539875960ull,171}, {4686114613445205ull,172}, {4876211426993798ull,172}, {9562326040439003ull,172}, {9752422853987596ull,172}, {19504845707975192ull,172}, {25943095339450725ull,172},
{45447941047425917ull,172}, {51886190678901450ull,172}, {90895882094851834ull,172}, {97334131726327367ull,172}, {6818443258572719ull,173}, {10377238135780290ull,173}, {14316226640085047ull,173}, {20754476271560580ull,173},
{28632453280170094ull,173}, {41508952543121160ull,173}, {57264906560340188ull,173}, {83017905086242320ull,173}, {95894404349193386ull,173}, {98094518980521739ull,173}, {4742995631416661ull,174}, {8301790508624232ull,174},
{9485991262833322ull,174}, {16603581017248464ull,174}, {20498949648635689ull,174}, {33207162034496928ull,174}, {38797784665943025ull,174}, {66414324068993856ull,174}, {77595569331886050ull,174}, {97757945226342085ull,174},
{5590622631446097ull,175}, {5896016056039906ull,175}, {7759556933188605ull,175}, {11792032112079812ull,175}, {15519113866377210ull,175}, {19551589045268417ull,175}, {35070702911645627ull,175}, {39103178090536834ull,175},
{70141405823291254ull,175}, {74173881002182461ull,175}, {6207645546550884ull,176}, {10240120725442091ull,176}, {12415291093101768ull,176}, {16447766271992975ull,176}, {28863057365094743ull,176}, {32895532543985950ull,176},
{57726114730189486ull,176}, {65791065087971900ull,176}, {91475466888785173ull,176}, {99322328744814144ull,176}, {6579106508797190ull,177}, {7639893989717949ull,177}, {13158213017594380ull,177}, {14219000498515139ull,177},
{19312263158327105ull,177}, {35442163873891933ull,177}, {38624526316654210ull,177}, {70884327747783866ull,177}, {77249052633308420ull,177}, {96139966302051867ull,177}, {3862452631665421ull,178}, {5263285207037752ull,178},
{7724905263330842ull,178}, {10526570414075504ull,178}, {15449810526661684ull,178}, {21053140828151008ull,178}, {42106281656302016ull,178}, {45628689193515865ull,178}, {84212563312604032ull,178}, {87734970849817881ull,178},
{9125737838703173ull,179}, {9958106944413363ull,179}, {14729068140192497ull,179}, {18251475677406346ull,179}, {24270990531750765ull,179}, {41690097103446921ull,179}, {83380194206893842ull,179}, {88567339955528071ull,179},
{97083962127003060ull,179}, {99327493681542707ull,179}, {4854198106350153ull,180}, {8709553285848078ull,180}, {9708396212700306ull,180}, {13563751392198231ull,180}, {19416792425400612ull,180}, {32314648533030691ull,180},
{64629297066061382ull,180}, {69816442814695611ull,180}, {77667169701602448ull,180}, {98135719640317390ull,180}, {3855355179497925ull,181}, {5958216784533814ull,181}, {9813571964031739ull,181}, {11916433569067628ull,181},
{18645721389501027ull,181}, {24814289676697707ull,181}, {49628579353395414ull,181}, {54815725102029643ull,181}, {64208594060735650ull,181}, {99257158706790828ull,181}, {6420859406073565ull,182}, {8888286720952237ull,182},
{17776573441904474ull,182}, {22963719190538703ull,182}, {40740292632443177ull,182}, {45927438381077406ull,182}, {56049438759468979ull,182}, {91854876762154812ull,182}, {96032858035281501ull,182}, {98051186986296581ull,182},
{5035771077308098ull,183}, {5136687524858852ull,183}, {10071542154616196ull,183}, {15359604350801179ull,183}, {20143084309232392ull,183}, {35805438002685833ull,183}, {40286168618464784ull,183}, {71610876005371666ull,183},
{86465898118419075ull,183}, {92359458999908582ull,183}, {3867150545765272ull,184}, {4270816335968288ull,184}, {7734301091530544ull,184}, {8541632671936576ull,184}, {17083265343873152ull,184}, {17293179623683815ull,184},
{34586359247367630ull,184}, {54721362171890867ull,184}, {69172718494735260ull,184}, {93376704860125277ull,184}, {6707357569662863ull,185}, {6917271849473526ull,185}, {13834543698947052ull,185}, {18507409548176525ull,185},
{27669087397894104ull,185}, {48617887010590697ull,185}, {55338174795788208ull,185}, {95818094924645345ull,185}, {98233624558096117ull,185}, {99912938796581421ull,185}, {7770465350502085ull,186}, {8137966881733560ull,186},
{16275933763467120ull,186}, {19163618984929069ull,186}, {28929179243009341ull,186}, {32551867526934240ull,186}, {61481046769943581ull,186}, {65103735053868480ull,186}, {81747170348567075ull,186}, {97603275552412869ull,186},
{6216372280401668ull,187}, {6510373505386848ull,187}, {9398058726848797ull,187}, {13020747010773696ull,187}, {22418805737622493ull,187}, {26041494021547392ull,187}, {48460299759169885ull,187}, {52082988043094784ull,187},
{81159167898596715ull,187}, {96920599518339770ull,187}, {3269886813942683ull,188}, {6186972157903150ull,188}, {6539773627885366ull,188}, {9692059951833977ull,188}, {16231833579719343ull,188}, {19384119903667954ull,188},
{35615953483387297ull,188}, {38768239807335908ull,188}, {71231906966774594ull,188}, {77536479614671816ull,188}, {5862276167098015ull,189}, {9014562491046626ull,189}, {11724552334196030ull,189}, {18029124982093252ull,189},
{23449104668392060ull,189}, {36058249964186504ull,189}, {50935088622331145ull,189}, {68079620642825983ull,189}, {80688765938620427ull,189}, {93796418673568240ull,189}, {4689820933678412ull,190}, {5497196790787817ull,190},
{9379641867356824ull,190}, {10187017724466229ull,190}, {18759283734713648ull,190}, {20374035448932458ull,190}, {40748070897864916ull,190}, {58699978775469159ull,190}, {81496141795729832ull,190}, {96218546244896455ull,190},
{3390978599859501ull,191}, {5841270020963168ull,191}, {6781957199719002ull,191}, {12461752049260289ull,191}, {19243709248979291ull,191}, {20535510620354339ull,191}, {38487418497958582ull,191}, {41071021240708678ull,191},
{59668829804000445ull,191}, {76974836995917164ull,191}, {5269723358308411ull,192}, {6664042602491678ull,192}, {11933765960800089ull,192}, {13328085204983356ull,192}, {23867531921600178ull,192}, {33217695139650171ull,192},
{47735063843200356ull,192}, {72996915008983801ull,192}, {88908602956717253ull,192}, {95470127686400712ull,192}, {7201266725603341ull,193}, {7955843973866726ull,193}, {9350163218049993ull,193}, {15911687947733452ull,193},
{25261851165783445ull,193}, {31823375895466904ull,193}, {46980486594936971ull,193}, {63646751790933808ull,193}, {70208276520617267ull,193}, {93960973189873942ull,193}, {5052370233156689ull,194}, {5656032031767397ull,194},
{10104740466313378ull,194}, {11312064063534794ull,194}, {15458941598775421ull,194}, {22624128127069588ull,194}, {30917883197550842ull,194}, {47584148393547679ull,194}, {61835766395101684ull,194}, {95168296787095358ull,194},
{6650755067391869ull,195}, {10015510128604968ull,195}, {13301510134783738ull,195}, {20466696663077905ull,195}, {22366912396618439ull,195}, {29967775330780575ull,195}, {59935550661561150ull,195}, {70901168656936385ull,195},
{89467649586473756ull,195}, {97939865332371830ull,195}, {5993555066156115ull,196}, {8186678665231162ull,196}, {11987110132312230ull,196}, {14180233731387277ull,196}, {26167343863699507ull,196}, {28360467462774554ull,196},
{54527811326474061ull,196}, {56720934925549108ull,196}, {67986831571326457ull,196}, {95896881058497840ull,196}, {3977650343375296ull,197}, {4794844052924892ull,197}, {9589688105849784ull,197}, {11782811704924831ull,197},
{19179376211699568ull,197}, {23565623409849662ull,197}, {38358752423399136ull,197}, {47131246819699324ull,197}, {68503746630473939ull,197}, {76717504846798272ull,197}, {5391972322106633ull,198}, {10700302402556520ull,198},
{16986252612624521ull,198}, {17209747084614863ull,198}, {25758747008924709ull,198}, {42633252385554059ull,198}, {59731252234173751ull,198}, {77052746554783785ull,198}, {86607471603050170ull,198}, {93927251931413135ull,198},
{5062351612988805ull,199}, {6973296622642082ull,199}, {10124703225977610ull,199}, {15410549310956757ull,199}, {18785450386282627ull,199}, {30821098621913514ull,199}, {37570900772565254ull,199}, {61642197243827028ull,199},
{75141801545130508ull,199}, {97749141950719689ull,199}, {4049881290391044ull,200}, {5285846084979147ull,200}, {8099762580782088ull,200}, {12035648235630887ull,200}, {20135410816412975ull,200}, {24071296471261774ull,200},
{33407023846631965ull,200}, {55006390728717533ull,200}, {73677845479457915ull,200}, {80541643265651900ull,200}, {6681404769326393ull,201}, {8054164326565190ull,201}, {14735569095891583ull,201}, {16108328653130380ull,201},
{29471138191783166ull,201}, {32216657306260760ull,201}, {58942276383566332ull,201}, {64433314612521520ull,201}, {89786174132588295ull,201}, {94634024871775054ull,201}, {6443331461252152ull,202}, {8768384250787913ull,202},
{12886662922504304ull,202}, {15211715712040065ull,202}, {17957234826517659ull,202}, {25773325845008608ull,202}, {35914469653035318ull,202}, {43730560671526267ull,202}, {71828939306070636ull,202}, {79645030324561585ull,202},
{5787862256885607ull,203}, {6084686284816026ull,203}, {11872548541701633ull,203}, {12169372569632052ull,203}, {15929006064912317ull,203}, {24338745139264104ull,203}, {31858012129824634ull,203}, {55899933241158319ull,203},
{63716024259649268ull,203}, {87757945370982953ull,203}, {6609061648309262ull,204}, {7816091018490949ull,204}, {13218123296618524ull,204}, {20440566259248635ull,204}, {24041921111333685ull,204}, {40881132518497270ull,204},
{48083842222667370ull,204}, {74539822074364429ull,204}, {93812825480351399ull,204}, {96167684445334740ull,204}, {4808384222266737ull,205}, {8176226503699454ull,205}, {9616768444533474ull,205}, {16352453007398908ull,205},
{19233536889066948ull,205}, {32704906014797816ull,205}, {38467073778133896ull,205}, {71658738192696389ull,205}, {76934147556267792ull,205}, {99574993243687479ull,205}, {5096492610433541ull,206}, {6735684562865434ull,206},
{10192985220867082ull,206}, {11832177173298975ull,206}, {20385970441734164ull,206}, {23664354346597950ull,206}, {34523014720367571ull,206}, {53577634856296657ull,206}, {62797103277634385ull,206}, {94657417386391800ull,206},
{9404173409313817ull,207}, {9465741738639180ull,207}, {12559420655526877ull,207}, {18931483477278360ull,207}, {25118841311053754ull,207}, {44111893117657477ull,207}, {50237682622107508ull,207}, {81728586754912745ull,207},
{93980165763812807ull,207}, {94965259033018615ull,207}, {7572593390911344ull,208}, {8773123960071205ull,208}, {16345717350982549ull,208}, {17546247920142410ull,208}, {23795174083243167ull,208}, {32691434701965098ull,208},
{47590348166486334ull,208}, {65382869403930196ull,208}, {79081252299291571ull,208}, {85576451779693780ull,208}, {4278822588984689ull,209}, {7018499168056964ull,209}, {8557645177969378ull,209}, {14036998336113928ull,209},
{17115290355938756ull,209}, {28073996672227856ull,209}, {34230580711877512ull,209}, {56147993344455712ull,209}, {62643192824857921ull,209}, {94842080892220115ull,209}, {6575223789773460ull,210}, {8009709862154923ull,210},
{16019419724309846ull,210}, {18968416178444023ull,210}, {26220870849722589ull,210}, {43754800955785149ull,210}, {52441741699445178ull,210}, {87429577602199047ull,210}, {94815620049558359ull,210}, {99761927599130292ull,210},
{5260179031818768ull,211}, {7571361609503359ull,211}, {12831540641322127ull,211}, {15142723219006718ull,211}, {20960691817903821ull,211}, {25663081282644254ull,211}, {46623773100548075ull,211}, {51326162565288508ull,211},
{93247546201096150ull,211}, {97949935665836583ull,211}, {4176133501706514ull,212}, {5148621118403101ull,212}, {9324754620109615ull,212}, {10297242236806202ull,212}, {15892095008871971ull,212}, {18649509240219230ull,212},
{37299018480438460ull,212}, {56921015337354277ull,212}, {74598036960876920ull,212}, {79300426425617353ull,212}, {7297315896496875ull,213}, {7459803696087692ull,213}, {14919607392175384ull,213}, {19621996856915817ull,213},
{29839214784350768ull,213}, {44596334376935335ull,213}, {59678429568701536ull,213}, {74435549161286103ull,213}, {97794765408790711ull,213}, {97947496484988268ull,213}, {5027365063922067ull,214}, {8919266875387067ull,214},
{10054730127844134ull,214}, {17838533750774134ull,214}, {20109460255688268ull,214}, {35677067501548268ull,214}, {48813211787581969ull,214}, {71354135003096536ull,214}, {78327450972751103ull,214}, {97626423575163938ull,214},
{4670282173758000ull,215}, {5416555245068567ull,215}, {10833110490137134ull,215}, {13200358867998567ull,215}, {17806426459791701ull,215}, {30260512256479701ull,215}, {31753058399100835ull,215}, {60521024512959402ull,215},
{63506116798201670ull,215}, {97883281903023402ull,215}, {6350611679820167ull,216}, {11332245998495367ull,216}, {12701223359640334ull,216}, {22664491996990734ull,216}, {25402446719280668ull,216}, {49188778514464035ull,216},
{74591225233744703ull,216}, {82310814274709837ull,216}, {99727092860258777ull,216}, {99977031585527634ull,216}, {5852448247952647ull,217}, {9837755702892807ull,217}, {11830409430362887ull,217}, {19549998471328021ull,217},
{23535305926268181ull,217}, {39099996942656042ull,217}, {47070611852536362ull,217}, {78325506819769677ull,217}, {94015710770615131ull,217}, {94141223705072724ull,217}, {4656856011470599ull,218}, {7845101975422727ull,218},
{9313712022941198ull,218}, {15690203950845454ull,218}, {18752936980339989ull,218}, {31380407901690908ull,218}, {50133344882030897ull,218}, {62760815803381816ull,218}, {75513799659190328ull,218}, {87639218842710875ull,218},
{3800792569851035ull,219}, {6250978993446663ull,219}, {7601585139702070ull,219}, {12501957986893326ull,219}, {17527843768542175ull,219}, {22679242484648617ull,219}, {35055687537084350ull,219}, {47683158458435269ull,219},
{70111375074168700ull,219}, {95366316916870538ull,219}, {6546202809589263ull,220}, {7011137507416870ull,220}, {13557340317006133ull,220}, {14022275014833740ull,220}, {27114680634012266ull,220}, {27579615331839873ull,220},
{54229361268024532ull,220}, {55159230663679746ull,220}, {81660508439853345ull,220}, {99160028579496924ull,220}, {5143975308105889ull,221}, {5608910005933496ull,221}, {10287950616211778ull,221}, {11217820011866992ull,221},
{22435640023733984ull,221}, {32258655942118155ull,221}, {33188525337773369ull,221}, {64517311884236310ull,221}, {66377050675546738ull,221}, {93986359639388823ull,221}, {5231023521270968ull,222}, {6451731188423631ull,222},
{7381600584078845ull,222}, {12903462376847262ull,222}, {20285062960926107ull,222}, {25806924753694524ull,222}, {28887371212157615ull,222}, {51613849507389048ull,222}, {57774742424315230ull,222}, {80501220719546663ull,222},
{5649668017599970ull,223}, {5777474242431523ull,223}, {11427142260031493ull,223}, {11554948484863046ull,223}, {22982090744894539ull,223}, {23109896969726092ull,223}, {45964181489789078ull,223}, {46219793939452184ull,223},
{91928362979578156ull,223}, {92439587878904368ull,223}, {4519734414079976ull,224}, {4647540638911529ull,224}, {9039468828159952ull,224}, {9295081277823058ull,224}, {18078937656319904ull,224}, {27757437608637621ull,224},
{36157875312639808ull,224}, {64682150270266747ull,224}, {72315750625279616ull,224}, {92695200328567474ull,224}, {3411297571533496ull,225}, {5755977481458009ull,225}, {6822595143066992ull,225}, {9678499952317717ull,225},
{13645190286133984ull,225}, {17523544894037133ull,225}, {27290380572267968ull,225}, {33213634777475965ull,225}, {56837105328547331ull,225}, {66427269554951930ull,225}, {6191458118692914ull,226}, {6642726955495193ull,226},
{12834185074188107ull,226}, {13285453910990386ull,226}, {25668370148376214ull,226}, {37120369048768299ull,226}, {51336740296752428ull,226}, {84790199324324125ull,226}, {85692736997928683ull,226}, {98555301735505975ull,226},
{5957309801275019ull,227}, {6419930503432972ull,227}, {12377240304707991ull,227}, {16958039864864825ull,227}, {19711060347101195ull,227}, {33916079729729650ull,227}, {43540299552201271ull,227}, {53627140076830845ull,227},
{72875579721774087ull,227}, {93049260771033235ull,227}, {3942212069420239ull,228}, {6783215945945930ull,228}, {10725428015366169ull,228}, {13566431891891860ull,228}, {21450856030732338ull,228}, {24291859907258029ull,228},
{45742715937990367ull,228}, {48583719814516058ull,228}, {91485431875980734ull,228}, {94326435752506425ull,228}, {8012141636987797ull,229}, {10853145513513488ull,229}, {16024283273975594ull,229}, {18865287150501285ull,229},
{32048566547951188ull,229}, {37730574301002570ull,229}, {64097133095902376ull,229}, {75461148602005140ull,229}, {92507171861159286ull,229}, {98986703520379255ull,229}, {6569218090823955ull,230}, {7546114860200514ull,230},
{14115332951024469ull,230}, {15092229720401028ull,230}, {19797340704075851ull,230}, {30184459440802056ull,230}, {39594681408151702ull,230}, {60368918881604112ull,230}, {79189362816303404ull,230}, {91530275091782727ull,230},
{5131744264067041ull,231}, {5255374472659164ull,231}, {10387118736726205ull,231}, {10510748945318328ull,231}, {20774237473452410ull,231}, {25052715176735015ull,231}, {41548474946904820ull,231}, {45826952650187425ull,231},
{87375427597092245ull,231}, {91653905300374850ull,231}, {8309694989380964ull,232}, {9165390530037485ull,232}, {17475085519418449ull,232}, {18330781060074970ull,232}, {35805866579493419ull,232}, {36661562120149940ull,232},
{71611733158986838ull,232}, {73323124240299880ull,232}, {89581339512773779ull,232}, {98727298203834584ull,232}, {6476616883373467ull,233}, {7332312424029988ull,233}, {12953233766746934ull,233}, {14664624848059976ull,233},
{25906467533493868ull,233}, {29329249696119952ull,233}, {58658499392239904ull,233}, {70756037618330317ull,233}, {79430793681794646ull,233}, {93121922332298982ull,233}, {3812180641648340ull,234}, {6184568024106775ull,234},
{7624361283296680ull,234}, {13419530828381199ull,234}, {21043892111677879ull,234}, {23144681672013177ull,234}, {42087784223355758ull,234}, {54185322449446171ull,234}, {68383650235871882ull,234}, {96273106672801929ull,234},
{5998049199453069ull,235}, {10098188492939390ull,235}, {11996098398906138ull,235}, {16096237692392459ull,235}, {28092336091298597ull,235}, {44087133956506781ull,235}, {56184672182597194ull,235}, {88174267913013562ull,235},
{93085925823974083ull,235}, {95968787191249104ull,235}, {7997398932604092ull,236}, {8078550794351512ull,236}, {12138114156964123ull,236}, {15994797865208184ull,236}, {20094937158694505ull,236}, {31989595730416368ull,236},
{40189874317389010ull,236}, {68160482616066477ull,236}, {76198457479544279ull,236}, {80379748634778020ull,236}, {3954065942340965ull,237}, {4018987431738901ull,237}, {8037974863477802ull,237}, {11959580061119799ull,237},
{19997554924597601ull,237}, {28100451277473339ull,237}, {39995109849195202ull,237}, {56200902554946678ull,237}, {60122507752588675ull,237}, {88352802008857886ull,237}, {6326505507745544ull,238}, {10507796662979285ull,238},
{12024501550517735ull,238}, {21015593325958570ull,238}, {24049003101035470ull,238}, {37849895496683399ull,238}, {48098006202070940ull,238}, {81138101078547245ull,238}, {96196012404141880ull,238}, {96606246769535503ull,238},
{4809800620207094ull,239}, {8406237330383428ull,239}, {9619601240414188ull,239}, {16227620215709449ull,239}, {19239202480828376ull,239}, {25847221456123637ull,239}, {45086423936952013ull,239}, {51694442912247274ull,239},
{81635645483772760ull,239}, {96780866849199287ull,239}, {4081782274188638ull,240}, {6023164530237854ull,240}, {8549401231344477ull,240}, {11660492377508507ull,240}, {16712965779721753ull,240}, {23320984755017014ull,240},
{33425931559443506ull,240}, {46641969510034028ull,240}, {66851863118887012ull,240}, {93283939020068056ull,240}, {9482728575193686ull,241}, {11971601492124910ull,241}, {16090747550488947ull,241}, {23943202984249820ull,241},
{32181495100977894ull,241}, {40033950534738767ull,241}, {50761115568398065ull,241}, {80067901069477534ull,241}, {97451880443284937ull,241}, {99419194902832107ull,241}, {5174477279817165ull,242}, {9577281193699928ull,242},
{10152223113679613ull,242}, {19154562387399856ull,242}, {20304446227359226ull,242}, {38309124774799712ull,242}, {40608892454718452ull,242}, {76618249549599424ull,242}, {81217784909436904ull,242}, {96725964331003933ull,242},
{4139581823853732ull,243}, {7162525129785251ull,243}, {8542385737736495ull,243}, {10382199881671487ull,243}, {20764399763342974ull,243}, {28386878429111973ull,243}, {41528799526685948ull,243}, {56773756858223946ull,243},
{83057599053371896ull,243}, {87000449431270911ull,243}, {6833908590189196ull,244}, {11827454939189755ull,244}, {12879247104798589ull,244}, {24443479953959313ull,244}, {24969924134017375ull,244}, {48886959907918626ull,244},
{49939848268034750ull,244}, {96985349740257449ull,244}, {99610993473504019ull,244}, {99879696536069500ull,244}, {4993984826803475ull,245}, {9461963951351804ull,245}, {9987969653606950ull,245}, {18923927902703608ull,245},
{37586168387688391ull,245}, {39163308538847997ull,245}, {55984967543742685ull,245}, {78326617077695994ull,245}, {92782565855851273ull,245}, {99091126460489697ull,245}, {3995187861442780ull,246}, {7201805647305757ull,246},
{7990375722885560ull,246}, {11196993508748537ull,246}, {15980751445771120ull,246}, {22393987017497074ull,246}, {31961502891542240ull,246}, {57562107694902291ull,246}, {63923005783084480ull,246}, {89575948069988296ull,246},
{3196150289154224ull,247}, {3206617785862977ull,247}, {6392300578308448ull,247}, {6402768075017201ull,247}, {12784601156616896ull,247}, {12805536150034402ull,247}, {25611072300068804ull,247}, {38364270966559441ull,247},
{63975343266628245ull,247}, {76728541933118882ull,247}, {5105466465279756ull,248}, {7689602188045893ull,248}, {10210932930559512ull,248}, {12795068653325649ull,248}, {23006001583885161ull,248}, {25590137306651298ull,248},
{48596138890536459ull,248}, {51180274613302596ull,248}, {84606559061922329ull,248}, {97192277781072918ull,248}, {5634854605883487ull,249}, {7668667194628387ull,249}, {11269709211766974ull,249}, {15337334389256774ull,249},
{22539418423533948ull,249}, {30674668778513548ull,249}, {33258804501279685ull,249}, {61349337557027096ull,249}, {66517609002559370ull,249}, {94608142058306781ull,249}, {4067625177489800ull,250}, {5838235864757977ull,250},
{6651760900255937ull,250}, {9905861042247777ull,250}, {13303521800511874ull,250}, {24836432913755571ull,250}, {26607043601023748ull,250}, {48189376372787479ull,250}, {74796419973811227ull,250}, {96378752745574958ull,250},
{7627990942853489ull,251}, {8747781601723298ull,251}, {15255981885706978ull,251}, {18979052658170259ull,251}, {34235034543877237ull,251}, {37958105316340518ull,251}, {46887736315990743ull,251}, {68470069087754474ull,251},
{85573239224038969ull,251}, {93775472631981486ull,251}, {5357778599790135ull,252}, {5508996972393326ull,252}, {10715557199580270ull,252}, {10866775572183461ull,252}, {21733551144366922ull,252}, {28726037571483911ull,252},
{36172179116410473ull,252}, {64746998315291193ull,252}, {72344358232820946ull,252}, {93019380768965531ull,252}, {4286222879832108ull,253}, {5866182212379335ull,253}, {8572445759664216ull,253}, {10152405092211443ull,253},
{20304810184422886ull,253}, {24439814691651803ull,253}, {30154778531427947ull,253}, {44744624876074689ull,253}, {56174552555626977ull,253}, {89489249752149378ull,253}, {7294923172323371ull,254}, {9338959312068723ull,254},
{14589846344646742ull,254}, {18724850851875659ull,254}, {33314697196522401ull,254}, {37449701703751318ull,254}, {54130516415881625ull,254}, {74899403407502636ull,254}, {87492145840142239ull,254}, {99803294906352564ull,254},
{5854711428953982ull,255}, {8316941242196047ull,255}, {10826103283176325ull,255}, {16633882484392094ull,255}, {24114436379594715ull,255}, {30805535155542123ull,255}, {39075544169999957ull,255}, {61611070311084246ull,255},
{68997759750810441ull,255}, {95762154854600073ull,255}, {4330441313270530ull,256}, {4822887275918943ull,256}, {8660882626541060ull,256}, {9645774551837886ull,256}, {19291549103675772ull,256}, {26475093842271593ull,256},
{27459985767568419ull,256}, {52950187684543186ull,256}, {54919971535136838ull,256}, {80410173452111605ull,256}, {6928706101232848ull,257}, {9153328589189473ull,257}, {16082034690422321ull,257}, {18306657178378946ull,257},
{32164069380844642ull,257}, {36613314356757892ull,257}, {64328138761689284ull,257}, {73226628713515784ull,257}, {86574363641255534ull,257}, {89818340678664051ull,257}, {4894169473504575ull,258}, {8138146510913092ull,258},
{9788338947009150ull,258}, {16591711965148267ull,258}, {29939446892888017ull,258}, {33498842873618617ull,258}, {59878893785776034ull,258}, {66997685747237234ull,258}, {70557081727967834ull,258}, {88038642688298751ull,258},
{3915335578803660ull,259}, {5735554223919937ull,259}, {7830671157607320ull,259}, {12498406587308077ull,259}, {15661342315214640ull,259}, {27447869706376597ull,259}, {31719144883253317ull,259}, {37414178452422277ull,259},
{74828356904844554ull,259}, {98004951434344431ull,259}, {6264536926085856ull,260}, {10078017320411269ull,260}, {12529073852171712ull,260}, {22037587815666085ull,260}, {32288648240170213ull,260}, {36844675095505381ull,260},
{64577296480340426ull,260}, {73689350191010762ull,260}, {90031904437507887ull,260}, {97558117136882075ull,260}, {5546524276967009ull,261}, {6834040283002752ull,261}, {11093048553934018ull,261}, {12380564559969761ull,261},
{24761129119939522ull,261}, {30010634812502629ull,261}, {41697720535244451ull,261}, {67845807329639851ull,261}, {86069914750980523ull,261}, {88744388431472144ull,261}, {3922213019159310ull,262}, {6517133364914823ull,262},
{10439346384074133ull,262}, {13034266729829646ull,262}, {20878692768148266ull,262}, {23473613113903779ull,262}, {28703230472782859ull,262}, {46947226227807558ull,262}, {57406460945565718ull,262}, {75650456700590417ull,262},
{6778614232858777ull,263}, {10962308119962041ull,263}, {13557228465717554ull,263}, {21924616239924082ull,263}, {26611383529231227ull,263}, {43849232479848164ull,263}, {53222767058462454ull,263}, {70460616009079391ull,263},
{91219978775123495ull,263}, {98396359681662812ull,263}, {5121047344964693ull,264}, {8870461176410409ull,264}, {10242094689929386ull,264}, {17740922352820818ull,264}, {24736676613508369ull,264}, {35481844705641636ull,264},
{60218521319150005ull,264}, {70963689411283272ull,264}, {75216176644932869ull,264}, {98946706454033476ull,264}, {4544876600938569ull,265}, {6200291491194698ull,265}, {9446631920436533ull,265}, {12043704263830001ull,265},
{18893263840873066ull,265}, {24087408527660002ull,265}, {48174817055320004ull,265}, {56322912804059803ull,265}, {59276863866012666ull,265}, {96349634110640008ull,265}, {8005344261316041ull,266}, {10816543835845146ull,266},
{13484991922950493ull,266}, {16010688522632082ull,266}, {32021377045264164ull,266}, {40169472794003963ull,266}, {72190849839268127ull,266}, {80338945588007926ull,266}, {95493125186097460ull,266}, {99731839634864145ull,266},
{4774656259304873ull,267}, {7023615918928157ull,267}, {9549312518609746ull,267}, {17697408267349545ull,267}, {27246720785959291ull,267}, {35394816534699090ull,267}, {62641537320658381ull,267}, {70789633069398180ull,267},
{86238081677124441ull,267}, {92690691646357566ull,267}, {4940698423339856ull,268}, {7078963306939818ull,268}, {8590874852833087ull,268}, {14157926613879636ull,268}, {28315853227759272ull,268}, {29606375221605897ull,268},
{56631706455518544ull,268}, {57922228449365169ull,268}, {76799463934538017ull,268}, {79380507922231267ull,268}, {6158891195451677ull,269}, {11650312319631748ull,269}, {12130906742158275ull,269}, {23300624639263496ull,269},
{37496366571576371ull,269}, {38528784166653671ull,269}, {74992733143152742ull,269}, {77057568333307342ull,269}, {96486626991030963ull,269}, {96673502639776042ull,269}, {4852362696863310ull,270}, {8588673909411971ull,270},
{9704725393726620ull,270}, {18190157543630861ull,270}, {19409450787453240ull,270}, {37393124812068641ull,270}, {38632025926161401ull,270}, {74786249624137282ull,270}, {77264051852322802ull,270}, {96899594029061883ull,270},
{3881890157490648ull,271}, {7494311258630033ull,271}, {7763780314981296ull,271}, {14514750905155673ull,271}, {15527560629962592ull,271}, {29877124719905897ull,271}, {37475718219674825ull,271}, {38797212741373769ull,271},
{74951436439349650ull,271}, {77594425482747538ull,271}, {7495143643934965ull,272}, {8816638165633909ull,272}, {14990287287869930ull,272}, {17633276331267818ull,272}, {29980574575739860ull,272}, {42100949045621129ull,272},
{59961149151479720ull,272}, {85750316387531975ull,272}, {98778385955776336ull,272}, {99792860451193119ull,272}, {5996114915147972ull,273}, {9477385426483381ull,273}, {11992229830295944ull,273}, {17150063277506395ull,273},
{29142293107802339ull,273}, {34300126555012790ull,273}, {58284586215604678ull,273}, {63442419662815129ull,273}, {79428498562787782ull,273}, {95937838642367552ull,273}, {5106575591376321ull,274}, {6860025311002558ull,274},
{8562217174794665ull,274}, {13720050622005116ull,274}, {22282267796799781ull,274}, {27440101244010232ull,274}, {44564535593599562ull,274}, {49722369040810013ull,274}, {89129071187199124ull,274}, {99444738081620026ull,274},
{6849773739835732ull,275}, {12007607187046183ull,275}, {13699547479671464ull,275}, {24015214374092366ull,275}, {27399094959342928ull,275}, {29173047821302817ull,275}, {54798189918685856ull,275}, {58346095642605634ull,275},
{99876166170824700ull,275}, {99924406675965893ull,275}, {6544190709044519ull,276}, {8541714032461013ull,276}, {13088381418089038ull,276}, {13311951879545643ull,276}, {26176762836178076ull,276}, {26400333297634681ull,276},
{45034143763059991ull,276}, {52800666595269362ull,276}, {83196046539737031ull,276}, {97834810358329353ull,276}, {3995046646832988ull,277}, {7871443449697432ull,277}, {15041190649214211ull,277}, {15130618833796853ull,277},
{22673571204549619ull,277}, {30082381298428422ull,277}, {37759475946055151ull,277}, {60164762596856844ull,277}, {75518951892110302ull,277}, {97924238542911995ull,277}, {4498942967076867ull,278}, {6088018807351798ull,278},
{8997885934153734ull,278}, {10586961774428665ull,278}, {19584847708582399ull,278}, {21173923548857330ull,278}, {28761590011901417ull,278}, {39169695417164798ull,278}, {67931285429066215ull,278}, {78339390834329596ull,278},
{5116687666270311ull,279}, {8469569419542932ull,279}, {10233375332540622ull,279}, {13586257085813243ull,279}, {23819632418353865ull,279}, {27172514171626486ull,279}, {47639264836707730ull,279}, {54345028343252972ull,279},
{84520964122706561ull,279}, {95278529673415460ull,279}, {4763926483670773ull,280}, {8116808236943394ull,280}, {9527852967341546ull,280}, {16233616473886788ull,280}, {19055705934683092ull,280}, {31936440655297259ull,280},
{38111411869366184ull,280}, {50992146589980351ull,280}, {76222823738732368ull,280}, {90165143044299169ull,280}, {3704982728441355ull,281}, {4235775020917672ull,281}, {7409965456882710ull,281}, {10410746234986597ull,281},
{20821492469973194ull,281}, {22760688663124447ull,281}, {33702227190587361ull,281}, {45521377326248894ull,281}, {59463696631815695ull,281}, {98983512401856815ull,281}, {5927972365506168ull,282}, {9916748537861083ull,282},
{11892739326363139ull,282}, {19796702480371363ull,282}, {23785478652726278ull,282}, {39593404960742726ull,282}, {47534162710101753ull,282}, {79186809921485452ull,282}, {95031530824852703ull,282}, {95068325420203506ull,282},
{4749736811475095ull,283}, {7940757749359027ull,283}, {9499473622950190ull,283}, {15844720903367251ull,283}, {18998947245900380ull,283}, {31689441806734502ull,283}, {37997894491800760ull,283}, {63378883613469004ull,283},
{75995788983601520ull,283}, {88723078139786445ull,283}, {3799789449180076ull,284}, {6345247280417061ull,284}, {7599578898360152ull,284}, {10145036729597137ull,284}, {15199157796720304ull,284}, {17744615627957289ull,284},
{32943773424677593ull,284}, {35489231255914578ull,284}, {65887546849355186ull,284}, {70978462511829156ull,284}, {5747185610124579ull,285}, {10543744509792125ull,285}, {11709106023690131ull,285}, {21087489019584250ull,285},
{23418212047380262ull,285}, {41960243235727527ull,285}, {67414821548097377ull,285}, {71487554078076553ull,285}, {85742117933003669ull,285}, {94102317796402994ull,285}, {5090915662473970ull,286}, {6762955635153835ull,286},
{11853871297627805ull,286}, {15926603827606981ull,286}, {23707742595255610ull,286}, {31853207655213962ull,286}, {45743445217831355ull,286}, {65378455283107789ull,286}, {91486890435662710ull,286}, {93158930408342575ull,286},
{4407140524515149ull,287}, {4741548519051122ull,287}, {9148689043566271ull,287}, {9483097038102244ull,287}, {18297378087132542ull,287}, {18631786081668515ull,287}, {36594756174265084ull,287}, {37263572163337030ull,287},
{73189512348530168ull,287}, {74527144326674060ull,287}, {6783898443595460ull,288}, {7452714432667406ull,288}, {13567796887190920ull,288}, {14905428865334812ull,288}, {29810857730669624ull,288}, {35591532190657165ull,288},
{59621715461339248ull,288}, {65402389921326789ull,288}, {91200351717564737ull,288}, {96120733082728332ull,288}, {4720007344654022ull,289}, {7118306438131433ull,289}, {11838313782785455ull,289}, {14236612876262866ull,289},
{22692551292538191ull,289}, {28473225752525732ull,289}, {45385102585076382ull,289}, {51165777045063923ull,289}, {71460029244124703ull,289}, {83021378164099785ull,289}, {4735325513114182ull,290}, {6457149533289567ull,290},
{9470651026228364ull,290}, {12545425193007801ull,290}, {16604275632819957ull,290}, {22016076219236165ull,290}, {33208551265639914ull,290}, {44032152438472330ull,290}, {63342328364500391ull,290}, {91139079043724097ull,290},
{8486574753195645ull,291}, {8806430487694466ull,291}, {13898375339611853ull,291}, {17612860975388932ull,291}, {27796750679223706ull,291}, {35225721950777864ull,291}, {52518727191667975ull,291}, {70451443901555728ull,291},
{93254286007007071ull,291}, {98887906049777076ull,291}, {4688510714889797ull,292}, {7915983811110517ull,292}, {10503745438333595ull,292}, {15831967622221034ull,292}, {21007490876667190ull,292}, {30537211235888067ull,292},
{42014981753334380ull,292}, {68350694813889009ull,292}, {76753691164555885ull,292}, {84029963506668760ull,292}, {4201498175333438ull,293}, {6783476652310014ull,293}, {8402996350666876ull,293}, {13566953304620028ull,293},
{15350738232911177ull,293}, {16805992701333752ull,293}, {30701476465822354ull,293}, {33611985402667504ull,293}, {67223970805335008ull,293}, {96470192802734787ull,293}, {6112068767374815ull,294}, {11492117482644364ull,294},
{12224137534749630ull,294}, {22843102336340449ull,294}, {31574629146875899ull,294}, {33903036296352019ull,294}, {63149258293751798ull,294}, {67806072592704038ull,294}, {93418551236941358ull,294}, {98357630793790156ull,294},
{4889655013899852ull,295}, {8290557652114699ull,295}, {9779310027799704ull,295}, {17837026964966791ull,295}, {32273151291718735ull,295}, {34135877011299631ull,295}, {64546302583437470ull,295}, {68271754022599262ull,295},
{90299913856623069ull,295}, {97750816734946653ull,295}, {4656814298952240ull,296}, {6454630258343747ull,296}, {7385993118134195ull,296}, {12909260516687494ull,296}, {14771986236268390ull,296}, {25818521033374988ull,296},
{29543972472536780ull,296}, {51637042066749976ull,296}, {59087944945073560ull,296}, {94025365295784861ull,296}, {5908794494507356ull,297}, {8477664645806977ull,297}, {11817588989014712ull,297}, {16955329291613954ull,297},
{23635177978029424ull,297}, {33910658583227908ull,297}, {67821317166455816ull,297}, {71932295701571665ull,297}, {94536780446935419ull,297}, {94540711912117696ull,297}, {5137740302599242ull,298}, {9248718837715091ull,298},
{14386459140314333ull,298}, {16852259968347387ull,298}, {22196138917479763ull,298}, {28772918280628666ull,298}, {50969057198108429ull,298}, {57545836561257332ull,298}, {75634928408803523ull,298}, {95361335033067955ull,298},
{3781942993699290ull,299}, {7397402484099162ull,299}, {12166452102048129ull,299}, {12824523184881247ull,299}, {19072267006613591ull,299}, {25649046369762494ull,299}, {38144534013227182ull,299}, {51298092739524988ull,299},
{76289068026454364ull,299}, {84181989555269503ull,299}, {6576779363148903ull,300}, {11311745987401531ull,300}, {13153558726297806ull,300}, {22623491974803062ull,300}, {26307117452595612ull,300}, {36302721274330907ull,300},
{52614234905191224ull,300}, {63661179873386597ull,300}, {98386889428027387ull,300}, {99956038217352950ull,300}, {5471691719811138ull,301}, {8418592102045178ull,301}, {10943383439622276ull,301}, {15889404586203375ull,301},
{21886766879244552ull,301}, {26832788025825651ull,301}, {53665576051651302ull,301}, {66608080255620637ull,301}, {81446143695363934ull,301}, {84496605606171071ull,301}, {3998241528694118ull,302}, {6355761834481350ull,302},
{7996483057388236ull,302}, {15300024509756567ull,302}, {18119505885557069ull,302}, {30600049019513134ull,302}, {33188549860307001ull,302}, {43542553223482469ull,302}, {66377099720614002ull,302}, {87085106446964938ull,302},
{7857894736384255ull,303}, {10169218935170160ull,303}, {18027113671554415ull,303}, {20338437870340320ull,303}, {28381117034729883ull,303}, {40676875740680640ull,303}, {53711772158652629ull,303}, {81353751481361280ull,303},
{98835624961217101ull,303}, {99820043492135640ull,303}, {7210845468621766ull,304}, {8135375148136128ull,304}, {14421690937243532ull,304}, {16270750296272256ull,304}, {22094801245622479ull,304}, {39290081221409097ull,304},
{54636301838166991ull,304}, {68133463095896161ull,304}, {82278281160875642ull,304}, {98825904329411949ull,304}, {4899521269835861ull,305}, {7247923862120392ull,305}, {9448012880410419ull,305}, {14495847724240784ull,305},
{18896025760820838ull,305}, {29342725107742871ull,305}, {37441021862380373ull,305}, {58685450215485742ull,305}, {74882043724760746ull,305}, {85328743071682779ull,305}, {3708999220311907ull,306}, {6079162817105356ull,306},
{7417998440623814ull,306}, {11807295974949409ull,306}, {17206160478041077ull,306}, {21244428353105369ull,306}, {28003889484224413ull,306}, {42488856706210738ull,306}, {57675883246719669ull,306}, {84977713412421476ull,306},
{7549705902524768ull,307}, {8164150485587979ull,307}, {12202418360652271ull,307}, {19225294415573223ull,307}, {21507843276907277ull,307}, {38450588831146446ull,307}, {54164445219259193ull,307}, {76901177662292892ull,307},
{91386144884279217ull,307}, {96740916660929326ull,307}, {4565097722668108ull,308}, {7602274743800405ull,308}, {8690980333191795ull,308}, {15204549487600810ull,308}, {25054327198551511ull,308}, {27371921954069323ull,308},
{50108654397103022ull,308}, {54743843908138646ull,308}, {76321778973413439ull,308}, {85592157995484687ull,308},
};
static const Decimal D19[] = {
{2470328229206232721ull,-342}, {7410984687618698162ull,-342}, {7410984687618698163ull,-342}, {741098468761869816ull,-341}, {741098468761869817ull,-341}, {1235164114603116360ull,-341}, {1729229760444362905ull,-341}, {2717361052126855993ull,-341},
{3211426697968102537ull,-341}, {5187689281333088714ull,-341}, {5681754927174335258ull,-341}, {8152083156380567979ull,-341}, {8646148802221814523ull,-341}, {469362363549184217ull,-340}, {716395186469807489ull,-340}, {1062241138558680070ull,-340},
{1309273961479303342ull,-340}, {1655119913568175923ull,-340}, {2247998688577671776ull,-340}, {3433756238596663482ull,-340}, {6151117290723519475ull,-340}, {6743996065733015328ull,-340}, {9461357117859871321ull,-340}, {318672341567604021ull,-339},
{486654661153627846ull,-339}, {743568796991076049ull,-339}, {1123999344288835888ull,-339}, {1336447572000571902ull,-339}, {2354222802433539783ull,-339}, {2566671030145275797ull,-339}, {4814669718722947573ull,-339}, {6044893176867651468ull,-339},
{7275116635012355363ull,-339}, {668223786000285951ull,-338}, {808044363773358723ull,-338}, {1160313169258167509ull,-338}, {1792223130289121839ull,-338}, {3514535971691707292ull,-338}, {3760580663320648071ull,-338}, {4252670046578529629ull,-338},
{8083160998785714086ull,-338}, {8189385112641582093ull,-338}, {9805473840188299539ull,-338}, {646707227123899664ull,-337}, {709898223226995097ull,-337}, {955942914855935876ull,-337}, {1201987606484876655ull,-337}, {1757267985845853646ull,-337},
{2558593056835771416ull,-337}, {4716523578176583947ull,-337}, {6073129028527478708ull,-337}, {6874454099517396478ull,-337}, {8231059549868291239ull,-337}, {403486120660941609ull,-336}, {638236471625951492ull,-336}, {1038899007120910377ull,-336},
{1119031514219902154ull,-336}, {1359429035516877485ull,-336}, {2555769471669788692ull,-336}, {3196829528461722908ull,-336}, {3276962035560714685ull,-336}, {5354760049802535439ull,-336}, {9590488585385168724ull,-336}, {751269057114334797ull,-335},
{943022357118718517ull,-335}, {1406661464226477734ull,-335}, {1598414764230861454ull,-335}, {2253807171343004391ull,-335}, {3100952878459531048ull,-335}, {4603490992688200642ull,-335}, {6953174814033396893ull,-335}, {8455712928262066487ull,-335},
{9958251042490736081ull,-335}, {760856722114553983ull,-334}, {780032052114992355ull,-334}, {1531301109229327152ull,-334}, {1550476439229765524ull,-334}, {2301745496344100321ull,-334}, {3072189883458873490ull,-334}, {3842634270573646659ull,-334},
{6134792101917527794ull,-334}, {6905236489032300963ull,-334}, {7675680876147074132ull,-334}, {463225398768885820ull,-333}, {609644144191665105ull,-333}, {765650554614663576ull,-333}, {921656965037662047ull,-333}, {1994526507998212972ull,-333},
{2608964484689987670ull,-333}, {4296272004342313293ull,-333}, {4910709981034087991ull,-333}, {7212455477378188312ull,-333}, {7826893454069963010ull,-333}, {782689345406996301ull,-332}, {997263253999106486ull,-332}, {1304482242344993835ull,-332},
{2040849047875101554ull,-332}, {2348068036220988903ull,-332}, {4128020635627091690ull,-332}, {4649813532565089224ull,-332}, {7995144822785184613ull,-332}, {8516937719723182147ull,-332}, {9038730616661179681ull,-332}, {673698512031707936ull,-331},
{716613293750129973ull,-331}, {1238406190688127507ull,-331}, {1499302639157126274ull,-331}, {2064010317813545845ull,-331}, {3150510893407962950ull,-331}, {3976115020533381288ull,-331}, {6713823850378635069ull,-331}, {7539427977504053407ull,-331},
{9451532680223888850ull,-331}, {510553037784622043ull,-330}, {532351204459679716ull,-330}, {945153268022388885ull,-330}, {1357955331585098054ull,-330}, {1575255446703981475ull,-330}, {2618159688948283234ull,-330}, {2835459804067166655ull,-330},
{5138568403674653594ull,-330}, {5768670582356246184ull,-330}, {6398772761037838774ull,-330}, {581226691570636153ull,-329}, {1057038973001504581ull,-329}, {1148318652384069484ull,-329}, {2128212676760211984ull,-329}, {2947345509046282351ull,-329},
{3010355726914441610ull,-329}, {4396580520013945308ull,-329}, {8653005873534369276ull,-329}, {8968056962875165571ull,-329}, {9031067180743324830ull,-329}, {490066226295921938ull,-328}, {840096500206173224ull,-328}, {903106718074332483ull,-328},
{1442167645589061546ull,-328}, {2044238790971949868ull,-328}, {2107249008840109127ull,-328}, {3913462444988774093ull,-328}, {5054594517886391478ull,-328}, {7462879099417944766ull,-328}, {7525889317286104025ull,-328}, {565666566326927980ull,-327},
{638475724438848664ull,-327}, {939511297130292825ull,-327}, {1167737711709816302ull,-327}, {1541582442513181147ull,-327}, {2672915575167037107ull,-327}, {3046760305970401952ull,-327}, {5382235729390034556ull,-327}, {8392591456304476166ull,-327},
{8693627028995920327ull,-327}, {658637802015581120ull,-326}, {959673374707025281ull,-326}, {1260708947398469442ull,-326}, {1975913406046743360ull,-326}, {2577984551429631682ull,-326}, {2879020124121075843ull,-326}, {5155969102859263364ull,-326},
{8693627028995920327ull,-326}, {9182564861113423053ull,-326}, {9709867060335638406ull,-326}, {658637802015581120ull,-325}, {696218253900792833ull,-325}, {1091400935110141505ull,-325}, {1618311176722606401ull,-325}, {2182801870220283010ull,-325},
{3236622353445212802ull,-325}, {4365603740440566020ull,-325}, {6473244706890425604ull,-325}, {8355011004419264453ull,-325}, {8731207480881132040ull,-325}, {436560374044056602ull,-324}, {481735307828260749ull,-324}, {873120748088113204ull,-324},
{963470615656521498ull,-324}, {1926941231313042996ull,-324}, {2664537178048543759ull,-324}, {2935586780753768641ull,-324}, {5329074356097087518ull,-324}, {6428069773106221457ull,-324}, {8821557348449540334ull,-324}, {626216704415763928ull,-323},
{1098995417009133939ull,-323}, {1141054166511791021ull,-323}, {2197990834018267878ull,-323}, {3784561969809006239ull,-323}, {4007320454448479909ull,-323}, {5843911818193114611ull,-323}, {7569123939618012478ull,-323}, {9128433332094328168ull,-323},
{9517094545682384015ull,-323}, {467792817742894707ull,-322}, {901005728258845288ull,-322}, {935585635485789414ull,-322}, {1769763818352792601ull,-322}, {1903418909136476803ull,-322}, {2081625696848055739ull,-322}, {3806837818272953606ull,-322},
{5977566908976798813ull,-322}, {7613675636545907212ull,-322}, {8326502787392222956ull,-322}, {451966496911926935ull,-321}, {636622812256485466ull,-321}, {910382521456833465ull,-321}, {1266796096879991337ull,-321}, {1820765042913666930ull,-321},
{2896455296816120141ull,-321}, {3278666982771196393ull,-321}, {5792910593632240282ull,-321}, {6168672751954336939ull,-321}, {9408642568927655762ull,-321}, {728306017165466772ull,-320}, {1086009498115220563ull,-320}, {1814315515280687335ull,-320},
{2172018996230441126ull,-320}, {3628631030561374670ull,-320}, {3986334511511128461ull,-320}, {4712060717623403395ull,-320}, {7614965542072503131ull,-320}, {9424121435246806790ull,-320}, {9864378869898699397ull,-320}, {650057812237217235ull,-319},
{725726206112274934ull,-319}, {942412143524680679ull,-319}, {1451452412224549868ull,-319}, {1884824287049361358ull,-319}, {2902904824449099736ull,-319}, {3769648574098722716ull,-319}, {7181593667247691641ull,-319}, {7539297148197445432ull,-319},
{8860051261097414606ull,-319}, {509040268699869189ull,-318}, {520046249789773788ull,-318}, {1018080537399738378ull,-318}, {1029086518489642977ull,-318}, {2047167055889381355ull,-318}, {2058173036979285954ull,-318}, {4116346073958571908ull,-318},
{5470118130128254879ull,-318}, {8232692147917143816ull,-318}, {9586464204086826787ull,-318}, {818866822355752542ull,-317}, {1102828410897574655ull,-317}, {1375784018349492169ull,-317}, {1637733644711505084ull,-317}, {2751568036698984338ull,-317},
{4105340092868667309ull,-317}, {5503136073397968676ull,-317}, {9040552989182991759ull,-317}, {9740547939345491173ull,-317}, {9782377943909412108ull,-317}, {576289177996428413ull,-316}, {882262728718059724ull,-316}, {1144212355080072639ull,-316},
{1764525457436119448ull,-316}, {2699178111426581755ull,-316}, {3118297513605802419ull,-316}, {4568483419407506369ull,-316}, {7066467830657261979ull,-316}, {8307094035369355597ull,-316}, {9983571644086238253ull,-316}, {459358142214585893ull,-315},
{539835622285316351ull,-315}, {1079671244570632702ull,-315}, {1248992205624877805ull,-315}, {2159342489141265404ull,-315}, {2328663450195510507ull,-315}, {3488812174836873667ull,-315}, {5487199703836678155ull,-315}, {6486393468336580399ull,-315},
{8146139075227894681ull,-315}, {1097439940767335631ull,-314}, {1195686117034769018ull,-314}, {2194879881534671262ull,-314}, {2293126057802104649ull,-314}, {3024752684980328403ull,-314}, {4389759763069342524ull,-314}, {7414512448049670927ull,-314},
{8779519526138685048ull,-314}, {9948034251692832395ull,-314}, {9989791810313045583ull,-314}, {722845948516985745ull,-313}, {838653482106895150ull,-313}, {1561499430623880895ull,-313}, {1677306964213790300ull,-313}, {3122998861247761790ull,-313},
{3238806394837671195ull,-313}, {6361805256085432985ull,-313}, {6477612789675342390ull,-313}, {7958427401354265916ull,-313}, {9877788822402928323ull,-313}, {624599772249552358ull,-312}, {647761278967534239ull,-312}, {1272361051217086597ull,-312},
{1295522557935068478ull,-312}, {2544722102434173194ull,-312}, {2591045115870136956ull,-312}, {5089444204868346388ull,-312}, {5182090231740273912ull,-312}, {7749973840892428987ull,-312}, {7935265894636284035ull,-312}, {490415215112449134ull,-311},
{536738228548412896ull,-311}, {980830430224898268ull,-311}, {1073476457096825792ull,-311}, {1587053178927256807ull,-311}, {1961660860449796536ull,-311}, {2614206622588118837ull,-311}, {4483221456165987849ull,-311}, {5228413245176237674ull,-311},
{9526342647598370475ull,-311}, {672684397126639659ull,-310}, {970761112730739589ull,-310}, {1381622490195084401ull,-310}, {1905268529519674095ull,-310}, {2726991284448363719ull,-310}, {3846790754981153273ull,-310}, {4370436794305742967ull,-310},
{7693581509962306546ull,-310}, {8740873588611485934ull,-310}, {9969434146969690737ull,-310}, {559899735266394777ull,-309}, {762107411807869638ull,-309}, {1322007147074264415ull,-309}, {1524214823615739276ull,-309}, {1964883872640494081ull,-309},
{2644014294148528830ull,-309}, {3929767745280988162ull,-309}, {6371574362888042131ull,-309}, {7859535490561976324ull,-309}, {8134250558987061351ull,-309}, {528802858829705766ull,-308}, {554742915761278705ull,-308}, {731010535371180627ull,-308},
{1057605717659411532ull,-308}, {2115211435318823064ull,-308}, {2493686731470199847ull,-308}, {4230422870637646128ull,-308}, {4608898166789022911ull,-308}, {8839321037426669039ull,-308}, {9217796333578045822ull,-308}, {770389514897253869ull,-307},
{887588665218045928ull,-307}, {1540779029794507738ull,-307}, {1919254325945884521ull,-307}, {3460033355740392259ull,-307}, {3838508651891769042ull,-307}, {4739536239704315273ull,-307}, {7677017303783538084ull,-307}, {9479072479408630546ull,-307},
{9569393784540421999ull,-307}, {464921493457252382ull,-306}, {785765991404712099ull,-306}, {929842986914504764ull,-306}, {1250687484861964481ull,-306}, {2180530471776469245ull,-306}, {2501374969723928962ull,-306}, {4361060943552938490ull,-306},
{5554117630210985905ull,-306}, {7619386505579621018ull,-306}, {8170754196342748999ull,-306}, {436106094355293849ull,-305}, {518339254971144083ull,-305}, {872212188710587698ull,-305}, {1110823526042197181ull,-305}, {1744424377421175396ull,-305},
{2221647052084394362ull,-305}, {3488848754842350792ull,-305}, {4443294104168788724ull,-305}, {5949107144258354637ull,-305}, {8886588208337577448ull,-305}, {536538687543146178ull,-304}, {1031284937050148217ull,-304}, {1953377708312821273ull,-304},
{1983035714752784879ull,-304}, {2967139070519186417ull,-304}, {3966071429505569758ull,-304}, {5934278141038372834ull,-304}, {6933210500024756175ull,-304}, {9109023256637304493ull,-304}, {9870691564103978986ull,-304}, {581564611527851841ull,-303},
{805077488477099394ull,-303}, {1163129223055703682ull,-303}, {1386642100004951235ull,-303}, {1774351841023519129ull,-303}, {2773284200009902470ull,-303}, {4547636041033421599ull,-303}, {5546568400019804940ull,-303}, {6887645661715290258ull,-303},
{9095272082066843198ull,-303}, {554656840001980494ull,-302}, {665038161019558141ull,-302}, {1109313680003960988ull,-302}, {1330076322039116282ull,-302}, {2218627360007921976ull,-302}, {2660152644078232564ull,-302}, {3879847645099771199ull,-302},
{4437254720015843952ull,-302}, {8317102365115615151ull,-302}, {8874509440031687904ull,-302}, {952579642648078475ull,-301}, {998932358986383341ull,-301}, {1440457643056693929ull,-301}, {1997864717972766682ull,-301}, {2416213643873924837ull,-301},
{3995729435945533364ull,-301}, {4367725645508386653ull,-301}, {8456160514130529749ull,-301}, {8735451291016773306ull,-301}, {9941796394669114183ull,-301}, {557407074916072753ull,-300}, {762063714118462780ull,-300}, {1059425785997462539ull,-300},
{1319470789034535533ull,-300}, {2118851571994925078ull,-300}, {3103643220308534087ull,-300}, {3773001501750387135ull,-300}, {6671988082856531195ull,-300}, {7546003003500774270ull,-300}, {9980287942367455309ull,-300}, {434847987165921609ull,-299},
{609650971294770224ull,-299}, {754600300350077427ull,-299}, {1334397616571306239ull,-299}, {1509200600700154854ull,-299}, {1624296274681920645ull,-299}, {3018401201400309708ull,-299}, {3248592549363841290ull,-299}, {6036802402800619416ull,-299},
{7311492709224842831ull,-299}, {649718509872768258ull,-298}, {929403284478926042ull,-298}, {1299437019745536516ull,-298}, {2113744630242696767ull,-298}, {2343935978206228349ull,-298}, {4227489260485393534ull,-298}, {4432933895127612015ull,-298},
{8709916582255631751ull,-298}, {8865867790255224030ull,-298}, {9516753264681078329ull,-298}, {570762420155183543ull,-297}, {692535015326171897ull,-297}, {886586779025522403ull,-297}, {1640008091937188477ull,-297}, {1773173558051044806ull,-297},
{3280016183874376954ull,-297}, {6327880048349645175ull,-297}, {6837756170919334541ull,-297}, {7092694232204179224ull,-297}, {9874227164451734787ull,-297}, {503040400003968581ull,-296}, {507597548381115771ull,-296}, {1015195096762231542ull,-296},
{1265576009669929035ull,-296}, {2030390193524463084ull,-296}, {2531152019339858070ull,-296}, {3300523351571539309ull,-296}, {5062304038679716140ull,-296}, {6842313319296481731ull,-296}, {8604094006404658562ull,-296}, {763902754179104611ull,-295},
{1012460807735943228ull,-295}, {1271956017397935101ull,-295}, {2024921615471886456ull,-295}, {4049843230943772912ull,-295}, {4305692721904047033ull,-295}, {8099686461887545824ull,-295}, {8355535952847819945ull,-295}, {9152250175342384324ull,-295},
{9861467148995722655ull,-295}, {662292101535338513ull,-294}, {707628849804644934ull,-294}, {1415257699609289868ull,-294}, {1671107190569563989ull,-294}, {1972293429799144531ull,-294}, {3342214381139127978ull,-294}, {3944586859598289062ull,-294},
{6684428762278255956ull,-294}, {8054349713618239403ull,-294}, {9770793652457109813ull,-294}, {430728084575274043ull,-293}, {599138278728048203ull,-293}, {861456169150548086ull,-293}, {1369920951339983447ull,-293}, {1544799544954983369ull,-293},
{2739841902679966894ull,-293}, {3941352659867176181ull,-293}, {4627930235402724345ull,-293}, {7882705319734352362ull,-293}, {9255860470805448690ull,-293}, {821305730857767492ull,-292}, {925586047080544869ull,-292}, {1746891777938312361ull,-292},
{1851172094161089738ull,-292}, {3598063872099402099ull,-292}, {3702344188322179476ull,-292}, {4762658390724943673ull,-292}, {7404688376644358952ull,-292}, {9525316781449887346ull,-292}, {9942438046340996854ull,-292}, {677900647930769469ull,-291},
{782180964153546846ull,-291}, {1355801295861538938ull,-291}, {1564361928307093692ull,-291}, {2433469353473860525ull,-291}, {3128723856614187384ull,-291}, {4866938706947721050ull,-291}, {6535580951477592119ull,-291}, {7508968692867136329ull,-291},
{9733877413895442100ull,-291}, {486693870694772105ull,-290}, {597915729001372438ull,-290}, {973387741389544210ull,-290}, {1473964696251962227ull,-290}, {1946775482779088420ull,-290}, {2836707534197324121ull,-290}, {3893550965558176840ull,-290},
{4783483016976412541ull,-290}, {7787101931116353680ull,-290}, {8677033982534589381ull,-290}, {645212526150628361ull,-289}, {778710193111635368ull,-289}, {1290425052301256722ull,-289}, {1557420386223270736ull,-289}, {3114840772446541472ull,-289},
{4271768157786791187ull,-289}, {6229681544893082944ull,-289}, {8543536315573582374ull,-289}, {9522571601609444771ull,-289}, {9878355800218219407ull,-289}, {658546574350185758ull,-288}, {729766288058113900ull,-288}, {1156927385340249715ull,-288},
{1459532576116227800ull,-288}, {2153689007320377629ull,-288}, {3079230915592577401ull,-288}, {4307378014640755258ull,-288}, {6158461831185154802ull,-288}, {8614756029281510516ull,-288}, {8774921792641632317ull,-288}, {462770954136099886ull,-287},
{583813030446491120ull,-287}, {925541908272199772ull,-287}, {1167626060892982240ull,-287}, {1690918053184277743ull,-287}, {2495417885146086281ull,-287}, {3381836106368555486ull,-287}, {5635169838893859299ull,-287}, {6119338144135424235ull,-287},
{9981671540584345124ull,-287}, {869300340338097165ull,-286}, {934100848714385792ull,-286}, {1223867628827084847ull,-286}, {2382934749277881067ull,-286}, {2447735257654169694ull,-286}, {4765869498555762134ull,-286}, {4895470515308339388ull,-286},
{9531738997111524268ull,-286}, {9790941030616678776ull,-286}, {9902186971563258365ull,-286}, {695440272270477732ull,-285}, {876147492691845981ull,-285}, {1107960916782005225ull,-285}, {1390880544540955464ull,-285}, {2215921833564010450ull,-285},
{3426095157683597665ull,-285}, {5642016991247608115ull,-285}, {6930685128450981589ull,-285}, {8706697708088469282ull,-285}, {8863687334256041800ull,-285}, {443184366712802090ull,-284}, {685219031536719533ull,-284}, {886368733425604180ull,-284},
{1128403398249521623ull,-284}, {2014772131675125803ull,-284}, {2256806796499043246ull,-284}, {4271578928174169049ull,-284}, {4513613592998086492ull,-284}, {8543157856348338098ull,-284}, {9027227185996172984ull,-284}, {709094986740483344ull,-283},
{951129651564400787ull,-283}, {1418189973480966688ull,-283}, {1902259303128801574ull,-283}, {2836379946961933376ull,-283}, {3804518606257603148ull,-283}, {4980673914914652393ull,-283}, {7609037212515206296ull,-283}, {9945713603484698174ull,-283},
{9961347829829304786ull,-283}, {705693185194229547ull,-282}, {954531453110654584ull,-282}, {1660224638304884131ull,-282}, {1909062906221309168ull,-282}, {3320449276609768262ull,-282}, {3569287544526193299ull,-282}, {6640898553219536524ull,-282},
{6889736821135961561ull,-282}, {8771585314987240353ull,-282}, {9269261850820090427ull,-282}, {536558424468122931ull,-281}, {614322201738668645ull,-281}, {1228644403477337290ull,-281}, {1477482671393762327ull,-281}, {2457288806954674580ull,-281},
{2954965342787524654ull,-281}, {4012535255618982621ull,-281}, {5909930685575049308ull,-281}, {6407607221407899382ull,-281}, {8118381224613298851ull,-281}, {410584596899431623ull,-280}, {491457761390934916ull,-280}, {821169193798863246ull,-280},
{982915522781869832ull,-280}, {1642338387597726492ull,-280}, {1965831045563739664ull,-280}, {2544380745888093031ull,-280}, {4671958120434839281ull,-280}, {5088761491776186062ull,-280}, {9343916240869678562ull,-280}, {638273212364023875ull,-279},
{953053766762034578ull,-279}, {1165811504216709203ull,-279}, {2016842454035407703ull,-279}, {2331623008433418406ull,-279}, {4033684908070815406ull,-279}, {4663246016866836812ull,-279}, {8067369816141630812ull,-279}, {9029135686471667859ull,-279},
{9326492033733673624ull,-279}, {510618569891219100ull,-278}, {570089839343620253ull,-278}, {1021237139782438200ull,-278}, {1080708409234839353ull,-278}, {2101945549017277553ull,-278}, {2161416818469678706ull,-278}, {4203891098034555106ull,-278},
{4263362367486956259ull,-278}, {8407782196069110212ull,-278}, {8467253465521511365ull,-278}, {408494855912975280ull,-277}, {467966125365376433ull,-277}, {816989711825950560ull,-277}, {876460981278351713ull,-277}, {1633979423651901120ull,-277},
{1693450693104302273ull,-277}, {3386901386208604546ull,-277}, {4416749732524137473ull,-277}, {5625011887196873859ull,-277}, {6773802772417209092ull,-277}, {653591769460760448ull,-276}, {930926962066748417ull,-276}, {1307183538921520896ull,-276},
{1584518731527508865ull,-276}, {3169037463055017730ull,-276}, {3763157963063377025ull,-276}, {5189284040889700227ull,-276}, {7526315926126754050ull,-276}, {8357137114913413487ull,-276}, {9984066933815566884ull,-276}, {633807492611003546ull,-275},
{752631592612675405ull,-275}, {1267614985222007092ull,-275}, {1505263185225350810ull,-275}, {2535229970444014184ull,-275}, {3010526370450701620ull,-275}, {4159317255671036853ull,-275}, {5070459940888028368ull,-275}, {7328591596532315477ull,-275},
{9229777196559065221ull,-275}, {491265948170249494ull,-274}, {602105274090140324ull,-274}, {800303359297100685ull,-274}, {1204210548180280648ull,-274}, {1418378181550803067ull,-274}, {2590649633403959599ull,-274}, {2836756363101606134ull,-274},
{5181299266807919198ull,-274}, {5649084648345347393ull,-274}, {9998141459529041790ull,-274}, {640242687437680548ull,-273}, {999814145952904179ull,-273}, {1275599759303788121ull,-273}, {1999628291905808358ull,-273}, {2546313903036003267ull,-273},
{3999256583811616716ull,-273}, {5092627806072006534ull,-273}, {7274484635021213195ull,-273}, {8717656084653680694ull,-273}, {9461227079541992831ull,-273}, {426992953402930686ull,-272}, {845181951224482688ull,-272}, {1454896927004242639ull,-272},
{1456851173232871829ull,-272}, {2185765321406465041ull,-272}, {2909793854008485278ull,-272}, {3639685125296393085ull,-272}, {5819587708016970556ull,-272}, {8003398783194806407ull,-272}, {8727427315796826644ull,-272}, {341211391518656574ull,-271},
{680644266326452219ull,-271}, {726373628076375265ull,-271}, {727937025059278617ull,-271}, {1452747256152750530ull,-271}, {2183029376686384175ull,-271}, {2905494512305501060ull,-271}, {5093214079940595291ull,-271}, {6544397939110442469ull,-271},
{8732117506745536700ull,-271}, {581098902461100212ull,-270}, {873211750674553670ull,-270}, {1746423501349107340ull,-270}, {2181465979703480823ull,-270}, {2473578827916934281ull,-270}, {4362931959406961646ull,-270}, {4947157655833868562ull,-270},
{6836510787323895927ull,-270}, {9745132093595203691ull,-270}, {9894315311667737124ull,-270}, {698569400539642936ull,-269}, {812913104652378956ull,-269}, {1247955583006752439ull,-269}, {1397138801079285872ull,-269}, {1889353131490027365ull,-269},
{2794277602158571744ull,-269}, {4683630733648599109ull,-269}, {5588555204317143488ull,-269}, {8760703432773720705ull,-269}, {9367261467297198218ull,-269}, {377870626298005473ull,-268}, {618528807660727722ull,-268}, {755741252596010946ull,-268},
{996399433958733195ull,-268}, {1511482505192021892ull,-268}, {1752140686554744141ull,-268}, {3022965010384043784ull,-268}, {4592155770358410293ull,-268}, {6045930020768087568ull,-268}, {9184311540716820586ull,-268}, {797119547166986556ull,-267},
{822167881526593159ull,-267}, {1619287428693579715ull,-267}, {1644335763053186318ull,-267}, {3238574857387159430ull,-267}, {4326449254636081441ull,-267}, {7565024112023240871ull,-267}, {8652898509272162882ull,-267}, {9590482900363445275ull,-267},
{9790869575240298099ull,-267}, {647714971477431886ull,-266}, {697811640196645092ull,-266}, {1295429942954863772ull,-266}, {1553082157380018739ull,-266}, {2590859885909727544ull,-266}, {3263623191746766033ull,-266}, {5181719771819455088ull,-266},
{5854483077656493577ull,-266}, {7715314118180880489ull,-266}, {9690676237801871687ull,-266}, {383619316014537811ull,-265}, {709973092480773479ull,-265}, {767238632029075622ull,-265}, {1377018387071422689ull,-265}, {1534477264058151244ull,-265},
{2207240569895189733ull,-265}, {3741717833953340977ull,-265}, {4414481139790379466ull,-265}, {8156198973743720443ull,-265}, {8828962279580758932ull,-265}, {798730407426421333ull,-264}, {1017448889125483591ull,-264}, {1362134472413928693ull,-264},
{2034897778250967182ull,-264}, {2488942602388943413ull,-264}, {4305121898940848337ull,-264}, {4977885204777886826ull,-264}, {8610243797881696674ull,-264}, {9786875510076266539ull,-264}, {9955770409555773652ull,-264}, {672763305837038489ull,-263},
{908089648275952462ull,-263}, {1123486557827044377ull,-263}, {1816179296551904924ull,-263}, {2024933061807056153ull,-263}, {3632358593103809848ull,-263}, {3827826069767079705ull,-263}, {7264717186207619696ull,-263}, {7655652139534159410ull,-263},
{9760302932892503795ull,-263}, {493802633900224271ull,-262}, {593247686312542409ull,-262}, {765565213953415941ull,-262}, {1408535426472117419ull,-262}, {1952060586578500759ull,-262}, {2396140694272565961ull,-262}, {3039110906791267439ull,-262},
{5657291654910866001ull,-262}, {7831392295336399361ull,-262}, {9561412828067867519ull,-262}, {587609791632922417ull,-261}, {1165560690120942066ull,-261}, {1175219583265844834ull,-261}, {2331121380241884132ull,-261}, {3473931034876374111ull,-261},
{3483191014485332641ull,-261}, {5213211547216800799ull,-261}, {8701032551506612705ull,-261}, {9377011062960585395ull,-261}, {9981944073203592158ull,-261}, {469480966174197471ull,-260}, {935514282282826284ull,-260}, {1736502518457739129ull,-260},
{1740206510301322541ull,-260}, {3473005036915478258ull,-260}, {3480413020602645082ull,-260}, {5207655559451425681ull,-260}, {6960826041205290164ull,-260}, {8676956604523320527ull,-260}, {8706588539271987823ull,-260}, {691637813908228922ull,-259},
{699045797595395746ull,-259}, {1035604724940551677ull,-259}, {1398091595190791492ull,-259}, {1723538547005197187ull,-259}, {2796183190381582984ull,-259}, {3099406191134488207ull,-259}, {5592366380763165968ull,-259}, {6198812382268976414ull,-259},
{8055694635643176433ull,-259}, {898017960527622575ull,-258}, {1188007456727814427ull,-258}, {1448365018179338983ull,-258}, {2376014913455628854ull,-258}, {2433696320131343169ull,-258}, {4752029826911257708ull,-258}, {4867392640262686338ull,-258},
{8576409758546225545ull,-258}, {9734785280525372676ull,-258}, {9736367743346992953ull,-258}, {672269243081526608ull,-257}, {718414368422098060ull,-257}, {1066085271298004227ull,-257}, {1715281951709245109ull,-257}, {2132170542596008454ull,-257},
{3801307368964682111ull,-257}, {5191990980468306779ull,-257}, {5933477911560690565ull,-257}, {7973358203475556115ull,-257}, {8901008098751845986ull,-257}, {574731494737678448ull,-256}, {611964087574459665ull,-256}, {1186695582312138113ull,-256},
{1223928175148919330ull,-256}, {1594671640695111223ull,-256}, {2447856350297838660ull,-256}, {3189343281390222446ull,-256}, {5599967038851279889ull,-256}, {6378686562780444892ull,-256}, {8789310320241502335ull,-256}, {778719523929165003ull,-255},
{979142540119135464ull,-255}, {1557439047858330006ull,-255}, {1757862064048300467ull,-255}, {3315301111906630473ull,-255}, {3515724128096600934ull,-255}, {7031448256193201868ull,-255}, {9041225981274318389ull,-255}, {9829690694693951416ull,-255},
{9998960556772875406ull,-255}, {542806412667343818ull,-254}, {743229428857314279ull,-254}, {1486458857714628558ull,-254}, {1647906783302887309ull,-254}, {2972917715429257116ull,-254}, {3134365641017515867ull,-254}, {4982695440510373637ull,-254},
{7231871272383172329ull,-254}, {8356459188319571675ull,-254}, {9965390881020747274ull,-254}, {562293957968199673ull,-253}, {723741883556458424ull,-253}, {931959917866771227ull,-253}, {1447483767112916848ull,-253}, {1671291837663914335ull,-253},
{3087595532295461815ull,-253}, {3149955677258200551ull,-253}, {6175191064590923630ull,-253}, {6299911354516401102ull,-253}, {9710402737988380419ull,-253}, {334258367532782867ull,-252}, {617519106459092363ull,-252}, {668516735065565734ull,-252},
{1235038212918184726ull,-252}, {2096182946053378579ull,-252}, {2481438942192634817ull,-252}, {3433216416184510047ull,-252}, {4962877884385269634ull,-252}, {6107283356446772983ull,-252}, {6866432832369020094ull,-252}, {503426166244416034ull,-251},
{1001237765972559750ull,-251}, {1525116461658253441ull,-251}, {1529661468200759587ull,-251}, {2291083447394259771ull,-251}, {3050232923316506882ull,-251}, {4582166894788519542ull,-251}, {5341316370710766653ull,-251}, {8368824261314742805ull,-251},
{9923483265499286195ull,-251}, {608228582046298918ull,-250}, {763694482464753257ull,-250}, {1371923064511052175ull,-250}, {1527388964929506514ull,-250}, {1984696653099857239ull,-250}, {2743846129022104350ull,-250}, {3969393306199714478ull,-250},
{5487692258044208700ull,-250}, {7938786612399428956ull,-250}, {8387004287484767389ull,-250}, {521312050954734919ull,-249}, {548769225804420870ull,-249}, {704235126222875209ull,-249}, {1097538451608841740ull,-249}, {1408470252445750418ull,-249},
{2533465878904278109ull,-249}, {3941936131350028527ull,-249}, {5066931757808556218ull,-249}, {5405320733495150847ull,-249}, {6530316359953678538ull,-249}, {878030761287073392ull,-248}, {923742816544643557ull,-248}, {1756061522574146784ull,-248},
{1801773577831716949ull,-248}, {2387127418689765877ull,-248}, {3603547155663433898ull,-248}, {4774254837379531754ull,-248}, {5990674574353199775ull,-248}, {8697786379845956807ull,-248}, {9548509674759063508ull,-248}, {429693319421159551ull,-247},
{823296061758564602ull,-247}, {1161565270664583823ull,-247}, {1198134914870639955ull,-247}, {2323130541329167646ull,-247}, {2396269829741279910ull,-247}, {4792539659482559820ull,-247}, {5935820108044115577ull,-247}, {8295520293579339355ull,-247},
{9585079318965119640ull,-247}, {406114677536143718ull,-246}, {479253965948255982ull,-246}, {700596126819355907ull,-246}, {958507931896511964ull,-246}, {1659104058715867871ull,-246}, {1917015863793023928ull,-246}, {3318208117431735742ull,-246},
{3834031727586047856ull,-246}, {6636416234863471484ull,-246}, {7668063455172095712ull,-246}, {869971067548071994ull,-245}, {966206719864675817ull,-245}, {1739942135096143988ull,-245}, {1836177787412747811ull,-245}, {3479884270192287976ull,-245},
{3576119922508891799ull,-245}, {4607767142817516027ull,-245}, {7152239845017783598ull,-245}, {9215534285635032054ull,-245}, {9600476894901447346ull,-245}, {657482593111816066ull,-244}, {753718245428419889ull,-244}, {844564906710220147ull,-244},
{1507436490856839778ull,-244}, {2352001397567059925ull,-244}, {3014872981713679556ull,-244}, {4704002795134119850ull,-244}, {6307674938307563451ull,-244}, {7248475497334387421ull,-244}, {9408005590268239700ull,-244}, {380631416438572440ull,-243},
{470400279513411985ull,-243}, {940800559026823970ull,-243}, {1039191807757349219ull,-243}, {1881601118053647940ull,-243}, {1979992366784173189ull,-243}, {3763202236107295880ull,-243}, {4614233932059280305ull,-243}, {7526404472214591760ull,-243},
{9882717062609494537ull,-243}, {752640447221459176ull,-242}, {922846786411856061ull,-242}, {1505280894442918352ull,-242}, {1845693572823712122ull,-242}, {3010561788885836704ull,-242}, {3691387145647424244ull,-242}, {5026461700899945711ull,-242},
{6021123577771673408ull,-242}, {8797577321359330794ull,-242}, {9685934565148444039ull,-242}, {476577749733111278ull,-241}, {790414269843251435ull,-241}, {1403157090928680221ull,-241}, {1675487233633315237ull,-241}, {2806314181857360442ull,-241},
{3350974467266630474ull,-241}, {4345636344138358171ull,-241}, {6701948934533260948ull,-241}, {8513601239518893693ull,-241}, {8691272688276716342ull,-241}, {452330779289618082ull,-240}, {634660603701761565ull,-240}, {904661558579236164ull,-240},
{1086991382991379647ull,-240}, {2173982765982759294ull,-240}, {2716313863564868909ull,-240}, {3440974785559122007ull,-240}, {5432627727129737818ull,-240}, {5974958824711847433ull,-240}, {6881949571118244014ull,-240}, {759263536614953461ull,-239},
{1015456965922818504ull,-239}, {1557788063504928119ull,-239}, {1991652941570615811ull,-239}, {3115576127009856238ull,-239}, {3983305883141231622ull,-239}, {4890296629547628203ull,-239}, {7966611766282463244ull,-239}, {9228945410204505123ull,-239},
{9780593259095256406ull,-239}, {512785655623820991ull,-238}, {828069968848263282ull,-238}, {946650533689508683ull,-238}, {1735060715254659863ull,-238}, {2760632026502301845ull,-238}, {2918473581618568443ull,-238}, {4338249983648786015ull,-238},
{7019961232592954561ull,-238}, {7177802787709221159ull,-238}, {9543830926420856509ull,-238}, {473365146545563432ull,-237}, {552126405300460369ull,-237}, {867649996729757203ull,-237}, {1104252810600920738ull,-237}, {1735299993459514406ull,-237},
{2208505621201841476ull,-237}, {4417011242403682952ull,-237}, {5442502794249706753ull,-237}, {5915708421992033823ull,-237}, {6941199973838057624ull,-237}, {662487878839257898ull,-236}, {1120132677394489215ull,-236}, {1593338305136816285ull,-236},
{1971902807330677941ull,-236}, {3186676610273632570ull,-236}, {3943805614661355882ull,-236}, {4969297166507379683ull,-236}, {7887611229322711764ull,-236}, {9114117410175089458ull,-236}, {9938594333014759366ull,-236}, {507949912124294085ull,-235},
{637335322054726514ull,-235}, {1015899824248588170ull,-235}, {1274670644109453028ull,-235}, {2031799648497176340ull,-235}, {2549341288218906056ull,-235}, {3953397342258791513ull,-235}, {4063599296994352680ull,-235}, {8016996639253144193ull,-235},
{8127198593988705360ull,-235}, {406359929699435268ull,-234}, {591336194641014921ull,-234}, {812719859398870536ull,-234}, {997696124340450189ull,-234}, {1625439718797741072ull,-234}, {2475546733299620851ull,-234}, {3250879437595482144ull,-234},
{5431247951217962175ull,-234}, {6021604390572243815ull,-234}, {9902186933198483404ull,-234}, {842237681366584618ull,-233}, {1086249590243592435ull,-233}, {1204320878114448763ull,-233}, {2172499180487184870ull,-233}, {2408641756228897526ull,-233},
{3376820058601633633ull,-233}, {5785461814830531159ull,-233}, {6753640117203267266ull,-233}, {9634567024915590104ull,-233}, {9666044357456770748ull,-233}, {480154484618720473ull,-232}, {868999672194873948ull,-232}, {960308969237440946ull,-232},
{1737999344389747896ull,-232}, {2507820386406759685ull,-232}, {2888796240847617999ull,-232}, {5015640772813519370ull,-232}, {6364794929627113791ull,-232}, {7920175679931727691ull,-232}, {9444079097695160947ull,-232}, {501564077281351937ull,-231},
{536513929471319704ull,-231}, {1003128154562703874ull,-231}, {1038078006752671641ull,-231}, {2006256309125407748ull,-231}, {2733258165817156609ull,-231}, {4012512618250815496ull,-231}, {4739514474942564357ull,-231}, {7437822788569753199ull,-231},
{8025025236501630992ull,-231}, {975862776740487085ull,-230}, {1065343384574888430ull,-230}, {1543484321217899067ull,-230}, {2130686769149776860ull,-230}, {2678727410172723031ull,-230}, {4669614770562628823ull,-230}, {4949213588082370959ull,-230},
{9339229541125257646ull,-230}, {9697151972462863026ull,-230}, {9898427176164741918ull,-230}, {780690221392389668ull,-229}, {852274707659910744ull,-229}, {1153139210521704233ull,-229}, {1704549415319821488ull,-229}, {2306278421043408466ull,-229},
{3409098830639642976ull,-229}, {4204315609823741829ull,-229}, {7226438893542361055ull,-229}, {8000389987384408555ull,-229}, {9962224232190895977ull,-229}, {518523273222698554ull,-228}, {706200423566526755ull,-228}, {1004159614869978407ull,-228},
{1445287778708472211ull,-228}, {1600077997476881711ull,-228}, {2890575557416944422ull,-228}, {3200155994953763422ull,-228}, {5781151114833888844ull,-228}, {6400311989907526844ull,-228}, {9929337300615477276ull,-228}, {721679445443367705ull,-227},
{911285483608932707ull,-227}, {1443358890886735410ull,-227}, {2230812199480940517ull,-227}, {2478476549510395717ull,-227}, {4461624398961881034ull,-227}, {4956953099020791434ull,-227}, {9331490030186837171ull,-227}, {9913906198041582868ull,-227},
{9973797559121316783ull,-227}, {577343556354694164ull,-226}, {647380140434531145ull,-226}, {1154687112709388328ull,-226}, {1703001513132137393ull,-226}, {2041206161315375515ull,-226}, {3406003026264274786ull,-226}, {4630726723053500095ull,-226},
{6263691652105800507ull,-226}, {8713139045684251125ull,-226}, {9261453446107000190ull,-226}, {408241232263075103ull,-225}, {517904112347624916ull,-225}, {816482464526150206ull,-225}, {926145344610700019ull,-225}, {1742627809136850225ull,-225},
{1852290689221400038ull,-225}, {3594918498358250263ull,-225}, {3704581378442800076ull,-225}, {7299499876801050339ull,-225}, {7409162756885600152ull,-225}, {697051123654740090ull,-224}, {806714003739289903ull,-224}, {1394102247309480180ull,-224},
{1503765127394029993ull,-224}, {2897867374703510173ull,-224}, {3007530254788059986ull,-224}, {5795734749407020346ull,-224}, {6015060509576119972ull,-224}, {9968046578054201628ull,-224}, {9974199702259744595ull,-224}, {557640898923792072ull,-223},
{667303779008341885ull,-223}, {1115281797847584144ull,-223}, {1334607558016683770ull,-223}, {2230563595695168288ull,-223}, {3674834033796401871ull,-223}, {4461127191390336576ull,-223}, {7349668067592803742ull,-223}, {8922254382780673152ull,-223},
{9671241546370435829ull,-223}, {471775894556360823ull,-222}, {533843023206673508ull,-222}, {1067686046413347016ull,-222}, {1320136180800608213ull,-222}, {2387822227213955229ull,-222}, {3140991010589728363ull,-222}, {3770025536664876127ull,-222},
{6281982021179456726ull,-222}, {6534432155566717923ull,-222}, {9547107289069810459ull,-222}, {326930688767636419ull,-221}, {376584391687886567ull,-221}, {653861377535272838ull,-221}, {1055272620683284479ull,-221}, {1709133998218557317ull,-221},
{2110545241366568958ull,-221}, {3819679239585126275ull,-221}, {4221090482733137916ull,-221}, {7639358479170252550ull,-221}, {8040769722318264191ull,-221}, {522252778071016179ull,-220}, {763935847917025255ull,-220}, {1527871695834050510ull,-220},
{1929282938982062151ull,-220}, {3055743391668101020ull,-220}, {3457154634816112661ull,-220}, {4743343260804154095ull,-220}, {6111486783336202040ull,-220}, {8446362585252286289ull,-220}, {9486686521608308190ull,-220}, {611148678333620204ull,-219},
{738931216975222256ull,-219}, {948668652160830819ull,-219}, {1222297356667240408ull,-219}, {1897337304321661638ull,-219}, {2444594713334480816ull,-219}, {3794674608643323276ull,-219}, {4889189426668961632ull,-219}, {7589349217286646552ull,-219},
{9778378853337923264ull,-219}, {327819586176026044ull,-218}, {647475292176456111ull,-218}, {655639172352052088ull,-218}, {1305788760686835513ull,-218}, {1307665619259463079ull,-218}, {2607964795929029929ull,-218}, {2615331238518926158ull,-218},
{5212316866413418761ull,-218}, {5227049751593211219ull,-218}, {9987493954025264785ull,-218}, {523788792792713451ull,-217}, {1043908463460540191ull,-217}, {1047577585585426902ull,-217}, {2087816926921080382ull,-217}, {2091542445726212707ull,-217},
{4172021128397519667ull,-217}, {4183084891452425414ull,-217}, {8340429531350398237ull,-217}, {8366169782904850828ull,-217}, {9900675749993387229ull,-217}, {421198669500955419ull,-216}, {826456229701293520ull,-216}, {838784613557269741ull,-216},
{1670976086625792525ull,-216}, {2780715108531144541ull,-216}, {2787940559420426735ull,-216}, {4176491750963678457ull,-216}, {5561430217062289082ull,-216}, {6953594134050181901ull,-216}, {9723471066247403151ull,-216}, {550362660994803153ull,-215},
{557588111884085347ull,-215}, {823737628769884181ull,-215}, {1115176223768170694ull,-215}, {1384938466098610625ull,-215}, {2230352447536341388ull,-215}, {3061315527195507763ull,-215}, {4169266300074396263ull,-215}, {8338532600148792526ull,-215},
{9737921968025967539ull,-215}, {553975386439444250ull,-214}, {1067004136013508463ull,-214}, {1107950772878888500ull,-214}, {2064159831604508113ull,-214}, {2728930295331841213ull,-214}, {3615290913634952013ull,-214}, {5457860590663682426ull,-214},
{7230581827269904026ull,-214}, {8629971195147079039ull,-214}, {9889663682179236426ull,-214}, {443180309151555400ull,-213}, {778936935064997453ull,-213}, {886360618303110800ull,-213}, {1399389367877175013ull,-213}, {1772721236606221600ull,-213},
{3349382728144018773ull,-213}, {4413015470107751733ull,-213}, {6698765456288037546ull,-213}, {8826030940215503466ull,-213}, {9693603937110811999ull,-213}, {354544247321244320ull,-212}, {654846448502561941ull,-212}, {709088494642488640ull,-212},
{1293026093680801717ull,-212}, {1418176989284977280ull,-212}, {2285749986180285813ull,-212}, {3703926975465263093ull,-212}, {4571499972360571626ull,-212}, {7407853950930526186ull,-212}, {9409968539253816543ull,-212}, {567270795713990912ull,-211},
{860906275565579667ull,-211}, {1134541591427981824ull,-211}, {1428177071279570579ull,-211}, {2562718662707552403ull,-211}, {2856354142559141158ull,-211}, {5125437325415104806ull,-211}, {7127551913738395163ull,-211}, {9076332731423854592ull,-211},
{9423301981913274275ull,-211}, {496483653081457472ull,-210}, {854239554235850801ull,-210}, {880906439554766265ull,-210}, {1708479108471701602ull,-210}, {1884660396382654855ull,-210}, {3416958216943403204ull,-210}, {5301618613326058059ull,-210},
{6833916433886806408ull,-210}, {8131305870566283753ull,-210}, {9070939406091367769ull,-210}, {376932079276530971ull,-209}, {636409966612426440ull,-209}, {753864158553061942ull,-209}, {1272819933224852880ull,-209}, {1507728317106123884ull,-209},
{2545639866449705760ull,-209}, {3015456634212247768ull,-209}, {4547754454772996117ull,-209}, {6030913268424495536ull,-209}, {9095508909545992234ull,-209}, {998600343816182732ull,-208}, {1018255946579882304ull,-208}, {1492986615033349205ull,-208},
{2036511893159764608ull,-208}, {2521070362995081295ull,-208}, {4073023786319529216ull,-208}, {5042140725990162590ull,-208}, {7602522294512643029ull,-208}, {9311720539946687526ull,-208}, {9540756173853909777ull,-208}, {504214072599016259ull,-207},
{861778203896784816ull,-207}, {1008428145198032518ull,-207}, {1737914570153094767ull,-207}, {2016856290396065036ull,-207}, {2932303862179774131ull,-207}, {4033712580792130072ull,-207}, {5864607724359548262ull,-207}, {8067425161584260144ull,-207},
{9154475717837090950ull,-207}, {363307396241578611ull,-206}, {552140175542130484ull,-206}, {915447571783709095ull,-206}, {1104280351084260968ull,-206}, {1830895143567418190ull,-206}, {2385906951581453701ull,-206}, {4216802095148871891ull,-206},
{5681518210002806443ull,-206}, {6413876267429773719ull,-206}, {8433604190297743782ull,-206}, {661419557661794570ull,-205}, {732358057426967276ull,-205}, {1464716114853934552ull,-205}, {2090666422633142769ull,-205}, {3555382537487077321ull,-205},
{4181332845266285538ull,-205}, {7110765074974154642ull,-205}, {7736715382753362859ull,-205}, {9330812307030296686ull,-205}, {9839877995493851765ull,-205}, {529135646129435656ull,-204}, {767827307309553629ull,-204}, {1058271292258871312ull,-204},
{1296962953438989285ull,-204}, {2593925906877978570ull,-204}, {3219876214657186787ull,-204}, {4084518183616512977ull,-204}, {5187851813755957140ull,-204}, {8169036367233025954ull,-204}, {9272369997372470117ull,-204}, {453021913987342979ull,-203},
{518785181375595714ull,-203}, {1037570362751191428ull,-203}, {1317663882946669169ull,-203}, {2075140725502382856ull,-203}, {2355234245697860597ull,-203}, {3046947820865321549ull,-203}, {5813802121535165357ull,-203}, {6093895641730643098ull,-203},
{9964083572539931069ull,-203}, {612797654301557670ull,-202}, {1050723016228841975ull,-202}, {1225595308603115340ull,-202}, {2101446032457683950ull,-202}, {2994337206954719361ull,-202}, {4202892064915367900ull,-202}, {7197229271870087261ull,-202},
{8528045808294406977ull,-202}, {9560239111897580366ull,-202}, {9790700542148859489ull,-202}, {490238123441246136ull,-201}, {840578412983073580ull,-201}, {1173282547089153509ull,-201}, {1488350525759485923ull,-201}, {2346565094178307018ull,-201},
{3169507351725633083ull,-201}, {4693130188356614036ull,-201}, {5516072445903940101ull,-201}, {7792092918339257059ull,-201}, {9386260376713228072ull,-201}, {479656430179797627ull,-200}, {672462730386458864ull,-200}, {794724408850130041ull,-200},
{1344925460772917728ull,-200}, {1589448817700260082ull,-200}, {2854439373055300669ull,-200}, {3014309183891054951ull,-200}, {5873467197620066551ull,-200}, {6028618367782109902ull,-200}, {9771872977126550546ull,-200}, {701614907683890118ull,-199},
{1108858058920227225ull,-199}, {1238641363858315023ull,-199}, {2382304569349919663ull,-199}, {2477282727716630046ull,-199}, {4764609138699839326ull,-199}, {4954565455433260092ull,-199}, {9529218277399678652ull,-199}, {9710718639058447567ull,-199},
{9841483270269305376ull,-199}, {594209616449005137ull,-198}, {887086447136181780ull,-198}, {1023830781388545061ull,-198}, {1774172894272363560ull,-198}, {2139649869623047769ull,-198}, {3548345788544727120ull,-198}, {4042111143073122759ull,-198},
{4700464949110983611ull,-198}, {8084222286146245518ull,-198}, {9400929898221967222ull,-198}, {493765354528395639ull,-197}, {709669157708945424ull,-197}, {1203434512237341063ull,-197}, {1419338315417890848ull,-197}, {2406869024474682126ull,-197},
{2622772827655231911ull,-197}, {3281126633693092763ull,-197}, {5245545655310463822ull,-197}, {6562253267386185526ull,-197}, {8958479895364656155ull,-197}, {647711409541649355ull,-196}, {1230346090803501790ull,-196}, {1618972936528491403ull,-196},
{1791695979072931231ull,-196}, {3237945873056982806ull,-196}, {3583391958145862462ull,-196}, {4943280330857694123ull,-196}, {8699395331547996413ull,-196}, {9886560661715388246ull,-196}, {9910901327964131085ull,-196}, {548334542613470057ull,-195},
{954111457662650859ull,-195}, {1126834500207090687ull,-195}, {1908222915325301718ull,-195}, {2253669000414181374ull,-195}, {3786280415670452863ull,-195}, {4537503415808513321ull,-195}, {7572560831340905726ull,-195}, {9075006831617026642ull,-195},
{9135337661577327788ull,-195}, {462799966074896504ull,-194}, {751223000138060458ull,-194}, {925599932149793008ull,-194}, {1502446000276120916ull,-194}, {1851199864299586016ull,-194}, {3004892000552241832ull,-194}, {3702399728599172032ull,-194},
{5402772517998005183ull,-194}, {6677126314171263291ull,-194}, {9591522069783053404ull,-194}, {358173806867856974ull,-193}, {527840767457393587ull,-193}, {716347613735713948ull,-193}, {1104686835583721495ull,-193}, {1432695227471427896ull,-193},
{1821034449319435443ull,-193}, {3642068898638870886ull,-193}, {4467752643003820301ull,-193}, {7284137797277741772ull,-193}, {8109821541642691187ull,-193}, {602481271389931751ull,-192}, {883749468466977196ull,-192}, {1039825793906873619ull,-192},
{1932635685806944275ull,-192}, {2079651587813747238ull,-192}, {4030408120486878433ull,-192}, {4128418721824747075ull,-192}, {8060816240973756866ull,-192}, {8256837443649494150ull,-192}, {9547046980830665813ull,-192}, {548039716661141354ull,-191},
{773054274322777710ull,-191}, {825683744364949415ull,-191}, {1546108548645555420ull,-191}, {2041518795264525069ull,-191}, {2702065790756484601ull,-191}, {4083037590529050138ull,-191}, {5404131581512969202ull,-191}, {8166075181058100276ull,-191},
{9097017865507393101ull,-191}, {330273497745979766ull,-190}, {618443419458222168ull,-190}, {660546995491959532ull,-190}, {1236886838916444336ull,-190}, {1321093990983919064ull,-190}, {2473773677832888672ull,-190}, {3608679131926949171ull,-190},
{3981056205706666301ull,-190}, {5506112966335353039ull,-190}, {9673357708931877905ull,-190}, {558565610669575695ull,-189}, {1003728857337082756ull,-189}, {1785720712274488729ull,-189}, {1934671541786375581ull,-189}, {3571441424548977458ull,-189},
{3869343083572751162ull,-189}, {5729539210603183317ull,-189}, {7142882849097954916ull,-189}, {9075865149016177002ull,-189}, {9449931464664047627ull,-189}, {595127621300286010ull,-188}, {669940884429860135ull,-188}, {1190255242600572020ull,-188},
{1265068505730146145ull,-188}, {2455323748330718165ull,-188}, {2530137011460292290ull,-188}, {3943480649955063889ull,-188}, {6027440869626957021ull,-188}, {6919794453203755337ull,-188}, {9153381199134796719ull,-188}, {491064749666143633ull,-187},
{506027402292058458ull,-187}, {982129499332287266ull,-187}, {1012054804584116916ull,-187}, {1964258998664574532ull,-187}, {2024109609168233832ull,-187}, {3928517997329149064ull,-187}, {4955535454539180805ull,-187}, {8884053451868329869ull,-187},
{9911070909078361610ull,-187}, {967166846706372441ull,-186}, {991107090907836161ull,-186}, {1934333693412744882ull,-186}, {1982214181815672322ull,-186}, {2937410906421312903ull,-186}, {3964428363631344644ull,-186}, {4943565332438448945ull,-186},
{7928856727262689288ull,-186}, {9147396138084430789ull,-186}, {9887130664876897890ull,-186}, {430924395626346960ull,-185}, {845071601278907469ull,-185}, {988713066487689789ull,-185}, {1027017457210031741ull,-185}, {1977426132975379578ull,-185},
{3023595785546582295ull,-185}, {3954852265950759156ull,-185}, {5001021918521961873ull,-185}, {7909704531901518312ull,-185}, {8955874184472721029ull,-185}, {364841714017202354ull,-184}, {604719157109316459ull,-184}, {969560871126518813ull,-184},
{1209438314218632918ull,-184}, {1372706975866063119ull,-184}, {2418876628437265836ull,-184}, {2745413951732126238ull,-184}, {3791583604303328955ull,-184}, {6536997556035455193ull,-184}, {7583167208606657910ull,-184}, {566414766386974507ull,-183},
{758316720860665791ull,-183}, {1132829532773949014ull,-183}, {1516633441721331582ull,-183}, {2265659065547898028ull,-183}, {3695632627066483313ull,-183}, {4636560205366741043ull,-183}, {7391265254132966626ull,-183}, {9378362485004427073ull,-183},
{9483604559275372060ull,-183}, {474180227963768603ull,-182}, {850551259283871695ull,-182}, {948360455927537206ull,-182}, {1701102518567743390ull,-182}, {1896720911855074412ull,-182}, {2935457686798997653ull,-182}, {3793441823710148824ull,-182},
{5870915373597995306ull,-182}, {8053630997756786775ull,-182}, {8520378348093275902ull,-182}, {608139952213988528ull,-181}, {680441007427097356ull,-181}, {894134664517705585ull,-181}, {1038736774943923241ull,-181}, {1610726199551357355ull,-181},
{2077473549887846482ull,-181}, {3221452399102714710ull,-181}, {4976780709080289721ull,-181}, {6442904798205429420ull,-181}, {9486814067824090315ull,-181}, {573273228026921416ull,-180}, {644290479820542942ull,-180}, {1288580959641085884ull,-180},
{1897362813564818063ull,-180}, {2577161919282171768ull,-180}, {3185943773205903947ull,-180}, {5154323838564343536ull,-180}, {5763105692488075715ull,-180}, {9172371648430742656ull,-180}, {9699865823204954893ull,-180}, {815758926860824446ull,-179},
{880701496210673661ull,-179}, {1152621138497615143ull,-179}, {1631517853721648892ull,-179}, {2305242276995230286ull,-179}, {3263035707443297784ull,-179}, {4610484553990460572ull,-179}, {6177059838362260249ull,-179}, {9220969107980921144ull,-179},
{9569980684505256463ull,-179}, {530850770703913121ull,-178}, {582804826183792493ull,-178}, {1061701541407826242ull,-178}, {1165609652367584986ull,-178}, {1566575284371799677ull,-178}, {2331219304735169972ull,-178}, {3897794589106969649ull,-178},
{4662438609470339944ull,-178}, {7446577601689603979ull,-178}, {9324877218940679888ull,-178}, {709756602516526866ull,-177}, {1058768179040862185ull,-177}, {1419513205033053732ull,-177}, {2074382389702737169ull,-177}, {3188037986590442783ull,-177},
{3799753202881139019ull,-177}, {6027064396656550247ull,-177}, {7599506405762278038ull,-177}, {9258256351625980231ull,-177}, {9960059334167088580ull,-177}, {462723826106677126ull,-176}, {882293683834367051ull,-176}, {960726792815031555ull,-176},
{1764587367668734102ull,-176}, {2341023443357753035ull,-176}, {3109604877609778279ull,-176}, {4682046886715506070ull,-176}, {6219209755219556558ull,-176}, {8175942481451296971ull,-176}, {9364093773431012140ull,-176}, {384290717126012622ull,-175},
{468204688671550607ull,-175}, {768581434252025244ull,-175}, {936409377343101214ull,-175}, {1872818754686202428ull,-175}, {2725314160483765657ull,-175}, {4598132915169968085ull,-175}, {5450628320967531314ull,-175}, {5967467840582942603ull,-175},
{9196265830339936170ull,-175}, {785364228561132841ull,-174}, {919626583033993617ull,-174}, {1570728457122265682ull,-174}, {1839253166067987234ull,-174}, {2691748571865550463ull,-174}, {3678506332135974468ull,-174}, {5383497143731100926ull,-174},
{7357012664271948936ull,-174}, {9518213300654391238ull,-174}, {9867577602704240050ull,-174}, {663227813053891154ull,-173}, {915584603378787254ull,-173}, {986757760270424005ull,-173}, {1831169206757574508ull,-173}, {1973515520540848010ull,-173},
{3212630071136168115ull,-173}, {3947031041081696020ull,-173}, {6764958008109694533ull,-173}, {8453780901083995539ull,-173}, {9133176632758712145ull,-173}, {394703104108169602ull,-172}, {642526014227233623ull,-172}, {789406208216339204ull,-172},
{1037229118335403225ull,-172}, {1826635326551742429ull,-172}, {2074458236670806450ull,-172}, {3653270653103484858ull,-172}, {4148916473341612900ull,-172}, {7306541306206969716ull,-172}, {8297832946683225800ull,-172}, {829783294668322580ull,-171},
{916097858979453097ull,-171}, {1659566589336645160ull,-171}, {1745881153647775677ull,-171}, {3319133178673290320ull,-171}, {4569368512082937955ull,-171}, {5560660152559194039ull,-171}, {9138737024165875910ull,-171}, {9656624410032659012ull,-171},
{9740287276140299806ull,-171}, {663826635734658064ull,-170}, {913873702416587591ull,-170}, {1327653271469316128ull,-170}, {1827747404833175182ull,-170}, {2655306542938632256ull,-170}, {3655494809666350364ull,-170}, {4233006881089877911ull,-170},
{7310989619332700728ull,-170}, {8466013762179755822ull,-170}, {9233948214728468451ull,-170}, {500094133363859054ull,-169}, {762066137157137470ull,-169}, {815634200994108185ull,-169}, {1524132274314274940ull,-169}, {2339766475308383125ull,-169},
{2708874606775602971ull,-169}, {3601926745829379649ull,-169}, {5417749213551205942ull,-169}, {6126247286871372697ull,-169}, {7203853491658759298ull,-169}, {652507360795286548ull,-168}, {935906590123353250ull,-168}, {1871813180246706500ull,-168},
{2382620926377959697ull,-168}, {3743626360493413000ull,-168}, {4254434106624666197ull,-168}, {7998060467118079197ull,-168}, {8508868213249332394ull,-168}, {9866427980661120030ull,-168}, {9929310026593331571ull,-168}, {748725272098682600ull,-167},
{930652085541231796ull,-167}, {1350496424951210395ull,-167}, {1497450544197365200ull,-167}, {2994901088394730400ull,-167}, {3505708834525983597ull,-167}, {5989802176789460800ull,-167}, {6500609922920713997ull,-167}, {8249932668953417175ull,-167},
{9936373369053908812ull,-167}, {540198569980484158ull,-166}, {598980217678946080ull,-166}, {1080397139960968316ull,-166}, {1197960435357892160ull,-166}, {2395920870715784320ull,-166}, {2906728616847037517ull,-166}, {4045907404506467755ull,-166},
{4791841741431568640ull,-166}, {8837749145938036395ull,-166}, {9583683482863137280ull,-166}, {329997306758136687ull,-165}, {479184174143156864ull,-165}, {809181480901293551ull,-165}, {958368348286313728ull,-165}, {1767549829187607279ull,-165},
{1916736696572627456ull,-165}, {3535099658375214558ull,-165}, {3833473393145254912ull,-165}, {7070199316750429116ull,-165}, {7666946786290509824ull,-165}, {587670437767026770ull,-164}, {886044172537067124ull,-164}, {1175340875534053540ull,-164},
{1772088345074134248ull,-164}, {2350681751068107080ull,-164}, {3982660260530275089ull,-164}, {5456374870834368983ull,-164}, {6333342011598382169ull,-164}, {9158815460140711594ull,-164}, {9280771232206569957ull,-164}, {470136350213621416ull,-163},
{533441909876851062ull,-163}, {1066883819753702124ull,-163}, {1442061830472479071ull,-163}, {2508945650226181195ull,-163}, {2884123660944958142ull,-163}, {3385912790990194381ull,-163}, {5393069311171139337ull,-163}, {6771825581980388762ull,-163},
{9660604590185947833ull,-163}, {325464632440313416ull,-162}, {501789130045236239ull,-162}, {827253762485549655ull,-162}, {1003578260090472478ull,-162}, {2007156520180944956ull,-162}, {2382334530899721903ull,-162}, {3286486034433267319ull,-162},
{4764669061799443806ull,-162}, {8051155096232711125ull,-162}, {9506809108089956311ull,-162}, {661803009988439724ull,-161}, {948428009258102501ull,-161}, {1610231019246542225ull,-161}, {1896856018516205002ull,-161}, {3220462038493084450ull,-161},
{3507087037762747227ull,-161}, {6440924076986168900ull,-161}, {6727549076255831677ull,-161}, {8492357102891670941ull,-161}, {9065607101430996495ull,-161}, {644092407698616890ull,-160}, {692405801348976925ull,-160}, {1288184815397233780ull,-160},
{1574809814666896557ull,-160}, {1813121420286199299ull,-160}, {2576369630794467560ull,-160}, {3626242840572398598ull,-160}, {4389491051080666859ull,-160}, {7252485681144797196ull,-160}, {8778982102161333718ull,-160}, {515273926158893512ull,-159},
{553924641079181540ull,-159}, {801898925428556289ull,-159}, {1030547852317787024ull,-159}, {1832446777746343313ull,-159}, {2061095704635574048ull,-159}, {3664893555492686626ull,-159}, {4122191409271148096ull,-159}, {6031939616858067465ull,-159},
{9542230312669601979ull,-159}, {594487209911999911ull,-158}, {977738996482382758ull,-158}, {1206387923371613493ull,-158}, {1389307064882998081ull,-158}, {2412775846743226986ull,-158}, {4076461623893301949ull,-158}, {6489237470636528935ull,-158},
{8152923247786603898ull,-158}, {8719094175868371333ull,-158}, {9250438096854911426ull,-158}, {522621698360445049ull,-157}, {775225795766860738ull,-157}, {1071379122894598813ull,-157}, {1297847494127305787ull,-157}, {2595694988254611574ull,-157},
{3074767456893734237ull,-157}, {4259380765404686537ull,-157}, {5191389976509223148ull,-157}, {8492625804635664359ull,-157}, {8518761530809373074ull,-157}, {336238421162283577ull,-156}, {668950823228637436ull,-156}, {672476842324567154ull,-156},
{1343128791692016615ull,-156}, {1344953684649134308ull,-156}, {2681030438149291487ull,-156}, {3775081151530822131ull,-156}, {3785535442000305617ull,-156}, {5680916735617829297ull,-156}, {9440316451444426199ull,-156}, {752925372212267729ull,-155},
{763379662681751215ull,-155}, {1132001630935772465ull,-155}, {1900608438852265423ull,-155}, {2264003261871544930ull,-155}, {4175065991193293839ull,-155}, {4528006523743089860ull,-155}, {8350131982386587678ull,-155}, {9056013047486179720ull,-155},
{9513496484730810601ull,-155}, {452800652374308986ull,-154}, {610703730145400972ull,-154}, {905601304748617972ull,-154}, {1595256573779564937ull,-154}, {2500857878528182909ull,-154}, {3248556105505708895ull,-154}, {3564362261047892867ull,-154},
{6497112211011417790ull,-154}, {7128724522095785734ull,-154}, {8682163933997416727ull,-154}, {453737209348373365ull,-153}, {649711221101141779ull,-153}, {689655269030946965ull,-153}, {1299422442202283558ull,-153}, {1713215603620851737ull,-153},
{2598844884404567116ull,-153}, {3426431207241703474ull,-153}, {5197689768809134232ull,-153}, {6852862414483406948ull,-153}, {8958026041609795513ull,-153}, {885629280783715379ull,-152}, {972756940650035285ull,-152}, {1350225836142153045ull,-152},
{1945513881300070570ull,-152}, {2279418946859028377ull,-152}, {4312060488025418853ull,-152}, {4558837893718056754ull,-152}, {8624120976050837706ull,-152}, {9117675787436113508ull,-152}, {9669652894446676578ull,-152}, {540090334456861218ull,-151},
{778205552520028228ull,-151}, {1080180668913722436ull,-151}, {1556411105040056456ull,-151}, {2160361337827444872ull,-151}, {3112822210080112912ull,-151}, {4852150822482280071ull,-151}, {5694216273332835497ull,-151}, {8330808047286614389ull,-151},
{9704301644964560142ull,-151}, {476230436126334020ull,-150}, {516278812650544517ull,-150}, {802017074326344929ull,-150}, {1032557625301089034ull,-150}, {1453590350726366747ull,-150}, {2215559048528501179ull,-150}, {3057624499379056605ull,-150},
{4431118097057002358ull,-150}, {6265692796684436321ull,-150}, {8711792396187681605ull,-150}, {611524899875811321ull,-149}, {946401138581929716ull,-149}, {1373493597677945753ull,-149}, {1742358479237536321ull,-149}, {2596543397429568395ull,-149},
{3484716958475072642ull,-149}, {5042642996932813679ull,-149}, {6969433916950145284ull,-149}, {9090136314431103257ull,-149}, {9934842195939304247ull,-149}, {519308679485913679ull,-148}, {636765872524485284ull,-148}, {1273531745048970568ull,-148},
{1423975542975293679ull,-148}, {1926790920017331605ull,-148}, {2847951085950587358ull,-148}, {4774742005967918963ull,-148}, {5695902171901174716ull,-148}, {7387778705841363111ull,-148}, {9549484011935837926ull,-148}, {385358184003466321ull,-147},
{629767736360646716ull,-147}, {770716368006932642ull,-147}, {1015125920364113037ull,-147}, {1541432736013865284ull,-147}, {2462592901947121037ull,-147}, {4004025637960986321ull,-147}, {4868707760398776247ull,-147}, {7086891109988716889ull,-147},
{8008051275921972642ull,-147}, {627868703104639279ull,-146}, {962445943380662084ull,-146}, {1394787004599557047ull,-146}, {1785842288371045679ull,-146}, {2789574009199114094ull,-146}, {4101789458903858479ull,-146}, {5049043136236461067ull,-146},
{8733683799969484079ull,-146}, {9246624599344162572ull,-146}, {9993712226875534794ull,-146}, {658717075992306876ull,-145}, {663935778272176243ull,-145}, {1322652854264483119ull,-145}, {1327871556544352486ull,-145}, {2645305708528966238ull,-145},
{2650524410808835605ull,-145}, {5290611417057932476ull,-145}, {5295830119337801843ull,-145}, {8466022007748665835ull,-145}, {8476459412308404569ull,-145}, {524886179881897754ull,-144}, {530104882161767121ull,-144}, {1054991062043664875ull,-144},
{1060209764323534242ull,-144}, {1693204401549733167ull,-144}, {2120419528647068484ull,-144}, {3386408803099466334ull,-144}, {3813623930196801651ull,-144}, {7200032733296267985ull,-144}, {7627247860393603302ull,-144}, {843992849634931900ull,-143},
{933610836878294457ull,-143}, {1440006546659253597ull,-143}, {1867221673756588914ull,-143}, {2880013093318507194ull,-143}, {3982422500123788031ull,-143}, {5760026186637014388ull,-143}, {6862435593442295225ull,-143}, {9700699068521847483ull,-143},
{9921684661247527533ull,-143}, {675194279707945520ull,-142}, {697292838980513525ull,-142}, {1350388559415891040ull,-142}, {1372487118688459045ull,-142}, {2182720254337993669ull,-142}, {2744974237376918090ull,-142}, {4927694491714911759ull,-142},
{5489948474753836180ull,-142}, {8257021271403322275ull,-142}, {9855388983429823518ull,-142}, {540155423766356416ull,-141}, {548994847475383618ull,-141}, {1080310847532712832ull,-141}, {1097989694950767236ull,-141}, {2195979389901534472ull,-141},
{2740554525522404489ull,-141}, {4391958779803068944ull,-141}, {4936533915423938961ull,-141}, {8783917559606137888ull,-141}, {9328492695227007905ull,-141}, {660561701712265782ull,-140}, {1205136837333135799ull,-140}, {1321123403424531564ull,-140},
{1865698539045401581ull,-140}, {2642246806849063128ull,-140}, {3731397078090803162ull,-140}, {7462794156181606324ull,-140}, {9560465827409799435ull,-140}, {9760056477661918484ull,-140}, {9923956257353956856ull,-140}, {544575135620870017ull,-139},
{730153641367103241ull,-139}, {1089150271241740034ull,-139}, {1912093165481959887ull,-139}, {3001243436723699921ull,-139}, {3824186330963919774ull,-139}, {4275972213711673179ull,-139}, {7648372661927839548ull,-139}, {8471315556168059401ull,-139},
{8551944427423346358ull,-139}, {451785882747753405ull,-138}, {732585717690669172ull,-138}, {1184371600438422577ull,-138}, {1545800306636625301ull,-138}, {1726514659735726663ull,-138}, {2368743200876845154ull,-138}, {3453029319471453326ull,-138},
{4737486401753690308ull,-138}, {6906058638942906652ull,-138}, {9474972803507380616ull,-138}, {963623054601795453ull,-137}, {1204388696807185458ull,-137}, {1927246109203590906ull,-137}, {2168011751408980911ull,-137}, {2489406264869657873ull,-137},
{4336023502817961822ull,-137}, {6825429767687619695ull,-137}, {8672047005635923644ull,-137}, {9939689514511097636ull,-137}, {9957625059478631492ull,-137}, {529684412851858011ull,-136}, {931707797567821930ull,-136}, {1365085953537523939ull,-136},
{1557698467301835943ull,-136}, {2730171907075047878ull,-136}, {3115396934603671886ull,-136}, {5460343814150095756ull,-136}, {6921736024569775697ull,-136}, {7997903207460831630ull,-136}, {9538803317575327662ull,-136}, {468989375909284774ull,-135},
{716025972365422397ull,-135}, {799790320746083163ull,-135}, {1570240375803331179ull,-135}, {1599580641492166326ull,-135}, {3140480751606662358ull,-135}, {5983757272751206149ull,-135}, {6260134134896178919ull,-135}, {6398322565968665304ull,-135},
{9182918555735538801ull,-135}, {335057393522643064ull,-134}, {632261623984761631ull,-134}, {635666782933437371ull,-134}, {1264523247969523262ull,-134}, {1271333565866874742ull,-134}, {2508219127621900727ull,-134}, {3005697479482851713ull,-134},
{3226798969198829929ull,-134}, {6011394958965703426ull,-134}, {9348744673022522463ull,-134}, {689580091782961629ull,-133}, {826406459275977718ull,-133}, {1515986551058939347ull,-133}, {1958189530490895779ull,-133}, {2452943755192906173ull,-133},
{3916379060981791558ull,-133}, {5211264122324752689ull,-133}, {7832758121963583116ull,-133}, {8959092938860619993ull,-133}, {9569846162738500679ull,-133}, {435858204041374799ull,-132}, {722200489808570243ull,-132}, {871716408082749598ull,-132},
{1444400979617140486ull,-132}, {1743432816165499196ull,-132}, {3181489020392058049ull,-132}, {3486865632330998392ull,-132}, {6362978040784116098ull,-132}, {6973731264661996784ull,-132}, {9557156611957337413ull,-132}, {465761387696210670ull,-131},
{519222979615300779ull,-131}, {931522775392421340ull,-131}, {1038445959230601558ull,-131}, {1677281673465245821ull,-131}, {2262655795780799975ull,-131}, {2954953101934534347ull,-131}, {4525311591561599950ull,-131}, {5909906203869068694ull,-131},
{7480264693496134297ull,-131}, {905062318312319990ull,-130}, {984984367311511449ull,-130}, {1810124636624639980ull,-130}, {1969968734623022898ull,-130}, {3620249273249279960ull,-130}, {3939937469246045796ull,-130}, {5510295958873111399ull,-130},
{7879874938492091592ull,-130}, {8651012938127242605ull,-130}, {9929765722114305949ull,-130}, {441946976324119455ull,-129}, {724049854649855992ull,-129}, {883893952648238910ull,-129}, {1448099709299711984ull,-129}, {1767787905296477820ull,-129},
{2896199418599423968ull,-129}, {3497990492921926341ull,-129}, {5792398837198847936ull,-129}, {6958395668172823383ull,-129}, {6995980985843852682ull,-129}, {353557581059295564ull,-128}, {564205756651473074ull,-128}, {669529844447561829ull,-128},
{1165996830973975447ull,-128}, {1376645006566152957ull,-128}, {2331993661947950894ull,-128}, {3708638668514103851ull,-128}, {4663987323895901788ull,-128}, {8372625992410005639ull,-128}, {9327974647791803576ull,-128}, {580726256763284622ull,-127},
{917763337710768638ull,-127}, {1292385736329281953ull,-127}, {1704593452618824567ull,-127}, {2584771472658563906ull,-127}, {3952327844329904457ull,-127}, {4626402006224872489ull,-127}, {8447796627752064237ull,-127}, {8709663073357489655ull,-127},
{9834761047304809275ull,-127}, {468462614986908595ull,-126}, {842838857987065975ull,-126}, {1142536776881876627ull,-126}, {1255046574276608589ull,-126}, {1741932614671497931ull,-126}, {3053234087645472501ull,-126}, {3483865229342995862ull,-126},
{5338307641409225755ull,-126}, {8504051526449430218ull,-126}, {8822172870752221617ull,-126}, {393390441892192371ull,-125}, {674271086389652780ull,-125}, {1067661528281845151ull,-125}, {1348542172779305560ull,-125}, {1891683111871560883ull,-125},
{2135323056563690302ull,-125}, {2977964990056071529ull,-125}, {5076047346814430841ull,-125}, {5955929980112143058ull,-125}, {9346693459941811445ull,-125}, {790504953764917841ull,-124}, {1078833738223444448ull,-124}, {1352266242759838659ull,-124},
{1869338691988362289ull,-124}, {2704532485519677318ull,-124}, {3738677383976724578ull,-124}, {5637808635809351659ull,-124}, {7477354767953449156ull,-124}, {8968986995950490462ull,-124}, {9893558469014599867ull,-124}, {517072449228523630ull,-123},
{701986743841345511ull,-123}, {1219059193069869141ull,-123}, {1403973487682691022ull,-123}, {2438118386139738282ull,-123}, {2623032680752560163ull,-123}, {5061151066892298445ull,-123}, {5246065361505120326ull,-123}, {8282756001640499393ull,-123},
{8652584590866143155ull,-123}, {359143352397384471ull,-122}, {653086860981075218ull,-122}, {718286704794768942ull,-122}, {1012230213378459689ull,-122}, {1730516918173228631ull,-122}, {2024460426756919378ull,-122}, {3754977344930148009ull,-122},
{4048920853513838756ull,-122}, {7509954689860296018ull,-122}, {8097841707027677512ull,-122}, {633418065552553303ull,-121}, {927361574136244050ull,-121}, {1266836131105106606ull,-121}, {2179020689112960053ull,-121}, {2797261738537122753ull,-121},
{3445856820218066659ull,-121}, {5594523477074245506ull,-121}, {8452493280124930671ull,-121}, {9121845580078534470ull,-121}, {9871099572513943307ull,-121}, {741889259308995240ull,-120}, {818890380379802113ull,-120}, {1066186800149467193ull,-120},
{1483778518617990480ull,-120}, {2132373600298934386ull,-120}, {3539150997846117993ull,-120}, {3693153239987731739ull,-120}, {7078301995692235986ull,-120}, {7386306479975463478ull,-120}, {9628267314459693659ull,-120}, {373756824794404969ull,-119},
{593511407447196192ull,-119}, {967268232241601161ull,-119}, {1187022814894392384ull,-119}, {1934536464483202322ull,-119}, {2154291047135993545ull,-119}, {2945639590398921801ull,-119}, {3869072928966404644ull,-119}, {6814712519365326445ull,-119},
{7738145857932809288ull,-119}, {782697587384544519ull,-118}, {861716418854397418ull,-118}, {1362942503873065289ull,-118}, {1925885508604818585ull,-118}, {2725885007746130578ull,-118}, {4370299013985072515ull,-118}, {5451770015492261156ull,-118},
{7817164689402662187ull,-118}, {9866484037433651622ull,-118}, {9980106692417039469ull,-118}, {464195933190816616ull,-117}, {874059802797014503ull,-117}, {928391866381633232ull,-117}, {1748119605594029006ull,-117}, {2365394673910401031ull,-117},
{2572805872620575169ull,-117}, {4730789347820802062ull,-117}, {6276456282518807319ull,-117}, {8745556555784295419ull,-117}, {9461578695641604124ull,-117}, {390114455298010551ull,-116}, {597525654008184689ull,-116}, {780228910596021102ull,-116},
{1338255735987831119ull,-116}, {1560457821192042204ull,-116}, {2819715899947123979ull,-116}, {3807356009253319219ull,-116}, {4093764865196242701ull,-116}, {6069045083808633181ull,-116}, {8187529730392485402ull,-116}, {646907659473494451ull,-115},
{933316515416417933ull,-115}, {1328372559138896029ull,-115}, {1832075790640928739ull,-115}, {2656745118277792058ull,-115}, {4202412052975797315ull,-115}, {6859157171253589373ull,-115}, {7935678114641469047ull,-115}, {9412230568955660050ull,-115},
{9688688490490917066ull,-115}, {639001117994346379ull,-114}, {840482410595159463ull,-114}, {1278002235988692758ull,-114}, {1680964821190318926ull,-114}, {2219225292884258763ull,-114}, {3361929642380637852ull,-114}, {4438450585768517526ull,-114},
{5581154935264896615ull,-114}, {8876901171537035052ull,-114}, {9346047162847160635ull,-114}, {376489222758226402ull,-113}, {739741764294752921ull,-113}, {1116230987052979323ull,-113}, {1479483528589505842ull,-113}, {2595714515642485165ull,-113},
{2958967057179011684ull,-113}, {5191429031284970330ull,-113}, {5554681572821496849ull,-113}, {6326758848110279214ull,-113}, {9656352979496887622ull,-113}, {777976901425638529ull,-112}, {1038285806256994066ull,-112}, {1555953802851277058ull,-112},
{2076571612513988132ull,-112}, {2542767790755685633ull,-112}, {4153143225027976264ull,-112}, {5969405932710608859ull,-112}, {8306286450055952528ull,-112}, {9601931348075874049ull,-112}, {9662252605633743786ull,-112}, {489144756037474163ull,-111},
{932392356483395002ull,-111}, {1484483219771342987ull,-111}, {1547429327021816809ull,-111}, {2273934410094869847ull,-111}, {2968966439542685974ull,-111}, {4547868820189739694ull,-111}, {6758857123034135719ull,-111}, {9095737640379479388ull,-111},
{9664877455326347871ull,-111}, {568614845008347666ull,-110}, {757978136698289949ull,-110}, {1137229690016695332ull,-110}, {1515956273396579898ull,-110}, {1832261719464511459ull,-110}, {3031912546793159796ull,-110}, {3222325778360143713ull,-110},
{6063825093586319592ull,-110}, {6444651556720287426ull,-110}, {9916661884328243159ull,-110}, {657579347060644324ull,-109}, {934332230987320814ull,-109}, {1315158694121288648ull,-109}, {1868664461974641628ull,-109}, {2564746431299499389ull,-109},
{3737328923949283256ull,-109}, {5129492862598998778ull,-109}, {8424624125979402829ull,-109}, {9885393790141212153ull,-109}, {9925061403344576231ull,-109}, {619076724796430887ull,-108}, {818217410480877324ull,-108}, {1238153449592861774ull,-108},
{1614173199504859893ull,-108}, {2476306899185723548ull,-108}, {3913601034463031759ull,-108}, {5682391676738548579ull,-108}, {7097424190558962035ull,-108}, {8534718325836270246ull,-108}, {9219972961289582219ull,-108}, {393829047077513923ull,-107},
{780777955008436179ull,-107}, {1419484838111792407ull,-107}, {1428389486694550309ull,-107}, {2135905743604757037ull,-107}, {2838969676223584814ull,-107}, {3550938257425170493ull,-107}, {5677939352447169628ull,-107}, {6381003285065997405ull,-107},
{7101876514850340986ull,-107}, {434304867587157729ull,-106}, {564232075811613802ull,-106}, {703063932618827777ull,-106}, {998536943398771531ull,-106}, {1276200657013199481ull,-106}, {1997073886797543062ull,-106}, {2552401314026398962ull,-106},
{4124074981819542197ull,-106}, {5104802628052797924ull,-106}, {6676476295845941159ull,-106}, {720873229784343581ull,-105}, {850800438008799654ull,-105}, {1127411726010058515ull,-105}, {1701600876017599308ull,-105}, {2200343134910400529ull,-105},
{3403201752035198616ull,-105}, {4974875419828341851ull,-105}, {6806403504070397232ull,-105}, {8583451271202736112ull,-105}, {9949750839656683702ull,-105}, {450964690404023406ull,-104}, {669744286985096423ull,-104}, {901929380808046812ull,-104},
{1476118530815587605ull,-104}, {2104787997932844899ull,-104}, {2378047911623634417ull,-104}, {3362126932167359487ull,-104}, {4209575995865689798ull,-104}, {8419151991731379596ull,-104}, {9813120882811288943ull,-104}, {530261565062884787ull,-103},
{590447412326235042ull,-103}, {1120708977389119829ull,-103}, {1180894824652470084ull,-103}, {2241417954778239658ull,-103}, {2301603802041589913ull,-103}, {4482835909556479316ull,-103}, {4543021756819829571ull,-103}, {9025857666376308887ull,-103},
{9086043513639659142ull,-103}, {519941051894628762ull,-102}, {1008779468594467715ull,-102}, {1039882103789257524ull,-102}, {2053670445546945583ull,-102}, {2082430315311918823ull,-102}, {4107340891093891166ull,-102}, {6021250834068429275ull,-102},
{6069399511879109479ull,-102}, {8308313030075738965ull,-102}, {9923959844466929574ull,-102}, {421300930843451785ull,-101}, {807023574875574172ull,-101}, {1204250166813685855ull,-101}, {1252398844624366059ull,-101}, {2408500333627371710ull,-101},
{2504797689248732118ull,-101}, {3684973517157077871ull,-101}, {4817000667254743420ull,-101}, {7369947034314155742ull,-101}, {9634001334509486840ull,-101}, {481700066725474342ull,-100}, {577997422346834750ull,-100}, {963400133450948684ull,-100},
{1228324505719025957ull,-100}, {1926800266901897368ull,-100}, {2191724639169974641ull,-100}, {3853600533803794736ull,-100}, {4383449278339949282ull,-100}, {7707201067607589472ull,-100}, {8766898556679898564ull,-100}, {664750357853528038ull,-99},
{794773116804231819ull,-99}, {1329500715707056076ull,-99}, {1989372219193914403ull,-99}, {2659001431414112152ull,-99}, {4118524906071872009ull,-99}, {6777526337485984161ull,-99}, {8237049812143744018ull,-99}, {8896921315630602345ull,-99},
{9176482250998688751ull,-99}, {559756379819631071ull,-98}, {739836700603948480ull,-98}, {1119512759639262142ull,-98}, {1619453868891940163ull,-98}, {1779384263126120469ull,-98}, {2419105840062841693ull,-98}, {3558768526252240938ull,-98},
{6297735154783443243ull,-98}, {7117537052504481876ull,-98}, {9676423360251366772ull,-98}, {411789039698841375ull,-97}, {591869360483158784ull,-97}, {1003658400182000159ull,-97}, {1187514902642961685ull,-97}, {1643379977118721383ull,-97},
{2007316800364000318ull,-97}, {3286759954237442766ull,-97}, {3650696777482721701ull,-97}, {6937456731720164467ull,-97}, {7301393554965443402ull,-97}, {578522735515802179ull,-96}, {1022799286763425135ull,-96}, {1084258106382548571ull,-96},
{2118385938175906057ull,-96}, {2256408304120729397ull,-96}, {4236771876351812114ull,-96}, {4746283428895202623ull,-96}, {5037432887491425771ull,-96}, {8967950578540438269ull,-96}, {9492566857790405246ull,-96}, {509511552543390509ull,-95},
{818239429410740108ull,-95}, {891026794059795895ull,-95}, {1182176252656019043ull,-95}, {2364352505312038086ull,-95}, {2818655111477499259ull,-95}, {3692103487266168703ull,-95}, {6673911746312905987ull,-95}, {7384206974532337406ull,-95},
{9201417399194182098ull,-95}, {356410717623918358ull,-94}, {680190805733989111ull,-94}, {712821435247836716ull,-94}, {1360381611467978222ull,-94}, {1684161699578048975ull,-94}, {2462244393853580901ull,-94}, {3109804570073722407ull,-94},
{4924488787707161802ull,-94}, {5961090311065069271ull,-94}, {6219609140147444814ull,-94}, {778082694275531926ull,-93}, {1036601523357907469ull,-93}, {1814684217633439395ull,-93}, {2073203046715814938ull,-93}, {2436139890242502817ull,-93},
{3887887264349254333ull,-93}, {4872279780485005634ull,-93}, {7775774528698508666ull,-93}, {9744559560970011268ull,-93}, {9903712789664885069ull,-93}, {538931743864975672ull,-92}, {725873687053375758ull,-92}, {1077863487729951344ull,-92},
{1451747374106751516ull,-92}, {2155726975459902688ull,-92}, {3348955520484278661ull,-92}, {3865993178649029747ull,-92}, {6697911040968557322ull,-92}, {7731986357298059494ull,-92}, {9672982675076035811ull,-92}, {373883886376800172ull,-91},
{698421858454445915ull,-91}, {951382944638116201ull,-91}, {1072305744831246087ull,-91}, {1578227917198586659ull,-91}, {2469149461740137917ull,-91}, {3480993806474819061ull,-91}, {4613760951402630091ull,-91}, {6637449640871992379ull,-91},
{9552059874882905925ull,-91}, {566383572463905515ull,-90}, {1117474973527113464ull,-90}, {1132767144927811030ull,-90}, {1910411974976581185ull,-90}, {2590072261933267803ull,-90}, {3820823949953162370ull,-90}, {6410896211886430173ull,-90},
{7641647899906324740ull,-90}, {9129537359713176645ull,-90}, {9196937560003865050ull,-90}, {453106857971124412ull,-89}, {764164789990632474ull,-89}, {906213715942248824ull,-89}, {1528329579981264948ull,-89}, {1825907471942635329ull,-89},
{3056659159962529896ull,-89}, {4882566631905165225ull,-89}, {6113318319925059792ull,-89}, {8561341655906711245ull,-89}, {9765133263810330450ull,-89}, {367877502400154602ull,-88}, {608635823980878443ull,-88}, {735755004800309204ull,-88},
{976513326381033045ull,-88}, {1712268331181342249ull,-88}, {1953026652762066090ull,-88}, {3424536662362684498ull,-88}, {3906053305524132180ull,-88}, {6849073324725368996ull,-88}, {7812106611048264360ull,-88}, {781210661104826436ull,-87},
{840146357467481349ull,-87}, {1562421322209652872ull,-87}, {2102873661733755467ull,-87}, {3665294983943408339ull,-87}, {4205747323467510934ull,-87}, {7871042307410919273ull,-87}, {8411494646935021868ull,-87}, {9659175342810983419ull,-87},
{9797108880056710001ull,-87}, {550233264344591902ull,-86}, {854942818418074845ull,-86}, {992376060784363285ull,-86}, {1709885636836149690ull,-86}, {1876661653663906051ull,-86}, {3311680805767478861ull,-86}, {3783166376668718165ull,-86},
{6623361611534957722ull,-86}, {7566332753337436330ull,-86}, {9757985180774752773ull,-86}, {396950424313745314ull,-85}, {683954254734459876ull,-85}, {756633275333743633ull,-85}, {1367908509468919752ull,-85}, {1513266550667487266ull,-85},
{2556903656421945461ull,-85}, {3026533101334974532ull,-85}, {5799617693566561031ull,-85}, {7096703308424407259ull,-85}, {9869787900655993758ull,-85}, {641089292770173715ull,-84}, {1088358193706954589ull,-84}, {1282178585540347430ull,-84},
{2176716387413909178ull,-84}, {4085077236406931525ull,-84}, {4502532078708714803ull,-84}, {6649434407487626385ull,-84}, {8170154472813863050ull,-84}, {9631304442281921457ull,-84}, {9959230076560986546ull,-84}, {512871434216138972ull,-83},
{817015447281386305ull,-83}, {1329886881497525277ull,-83}, {1634030894562772610ull,-83}, {2963917776060297887ull,-83}, {3268061789125545220ull,-83}, {6231979565185843107ull,-83}, {6536123578251090440ull,-83}, {7603600326631183325ull,-83},
{9422518999719212884ull,-83}, {653612357825109044ull,-82}, {744261021214337800ull,-82}, {1003080702584970755ull,-82}, {1307224715650218088ull,-82}, {2006161405169941510ull,-82}, {2614449431300436176ull,-82}, {4012322810339883020ull,-82},
{5228898862600872352ull,-82}, {6322628228575071863ull,-82}, {8755780333097050527ull,-82}, {705376294099235635ull,-81}, {802464562067976604ull,-81}, {1410752588198471270ull,-81}, {1604929124135953208ull,-81}, {2821505176396942540ull,-81},
{4523522568501636717ull,-81}, {5643010352793885080ull,-81}, {9047045137003273434ull,-81}, {9857431901478935573ull,-81}, {9972356385358039859ull,-81}, {564301035279388508ull,-80}, {952654107154352384ull,-80}, {1128602070558777016ull,-80},
{1702017392104694177ull,-80}, {2257204141117554032ull,-80}, {2830619462663471193ull,-80}, {5087823603781025225ull,-80}, {5661238925326942386ull,-80}, {7788066534372715051ull,-80}, {9602231886016133289ull,-80}, {518174299078669198ull,-79},
{647440221414298475ull,-79}, {1017564720756205045ull,-79}, {1294880442828596950ull,-79}, {2035129441512410090ull,-79}, {2608544763058327251ull,-79}, {4070258883024820180ull,-79}, {4643674204570737341ull,-79}, {6382704046609622175ull,-79},
{8140517766049640360ull,-79}, {814051776604964036ull,-78}, {1035904354262877560ull,-78}, {1276540809321924435ull,-78}, {1628103553209928072ull,-78}, {2904644362531852507ull,-78}, {3256207106419856144ull,-78}, {5809288725063705014ull,-78},
{6512414212839712288ull,-78}, {9977020946249878637ull,-78}, {9982603140650965147ull,-78}, {510616323728769774ull,-77}, {862179067616773411ull,-77}, {1021232647457539548ull,-77}, {1724358135233546822ull,-77}, {2075920879121550459ull,-77},
{3415260686260622281ull,-77}, {4118386174036629555ull,-77}, {6830521372521244562ull,-77}, {8203316763866787747ull,-77}, {8236772348073259110ull,-77}, {428566409506898637ull,-76}, {669669903569535911ull,-76}, {823677234807325911ull,-76},
{1339339807139071822ull,-76}, {1647354469614651822ull,-76}, {2712135198484615007ull,-76}, {3294708939229303644ull,-76}, {5457725981175701377ull,-76}, {6555962294252135925ull,-76}, {6589417878458607288ull,-76}, {515662572331745911ull,-75},
{549118156538217274ull,-75}, {638868437321977911ull,-75}, {1098236313076434548ull,-75}, {1311192458850427185ull,-75}, {2196472626152869096ull,-75}, {2622384917700854370ull,-75}, {4392945252305738192ull,-75}, {5244769835401708740ull,-75},
{5278225419608180103ull,-75}, {524476983540170874ull,-74}, {885280167302441911ull,-74}, {1048953967080341748ull,-74}, {1770560334604883822ull,-74}, {2097907934160683496ull,-74}, {3541120669209767644ull,-74}, {4195815868321366992ull,-74},
{6327179386688521851ull,-74}, {8391631736642733984ull,-74}, {9146693688373747421ull,-74}, {530447276130573751ull,-73}, {721606367524542074ull,-73}, {936646629280121905ull,-73}, {1567460658030109745ull,-73}, {2131363518367154859ull,-73},
{2379859364329206053ull,-73}, {3507665085003296281ull,-73}, {5514780680389425543ull,-73}, {7015330170006592562ull,-73}, {9777507717123735261ull,-73}, {374658651712048762ull,-72}, {626984263212043898ull,-72}, {749317303424097524ull,-72},
{1253968526424087796ull,-72}, {1498634606848195048ull,-72}, {2507937052848175592ull,-72}, {2754518016041254815ull,-72}, {5015874105696351184ull,-72}, {5509036032082509630ull,-72}, {9773677951585791319ull,-72}, {550903603208250963ull,-71},
{708809571522752746ull,-71}, {1101807206416501926ull,-71}, {1960863215177868571ull,-71}, {2203614412833003852ull,-71}, {3863984753533644625ull,-71}, {4407228825666007704ull,-71}, {8070884996214833797ull,-71}, {8814457651332015408ull,-71},
{9272856494123744989ull,-71}, {600985748954455596ull,-70}, {772796950706728925ull,-70}, {973125533691547457ull,-70}, {1201971497908911192ull,-70}, {2175097031600458649ull,-70}, {2403942995817822384ull,-70}, {4350194063200917298ull,-70},
{6181668691296829289ull,-70}, {7326605426740650075ull,-70}, {9615771983271289536ull,-70}, {342915489147544547ull,-69}, {664006753408855887ull,-69}, {686537892652091205ull,-69}, {1328013506817711774ull,-69}, {1465321085348130015ull,-69},
{1648397856722021003ull,-69}, {2930642170696260030ull,-69}, {4670578413105226527ull,-69}, {5861284341392520060ull,-69}, {7601220583801486557ull,-69}, {586128434139252006ull,-68}, {952281976887033982ull,-68}, {1172256868278504012ull,-68},
{2106089785156748473ull,-68}, {2344513736557008024ull,-68}, {4084449978965974521ull,-68}, {4689027473114016048ull,-68}, {6428963715522982545ull,-68}, {8699681212044832485ull,-68}, {9378054946228032096ull,-68}, {630123412417546012ull,-67},
{655669330687050497ull,-67}, {1260246824835092024ull,-67}, {1285792743104596509ull,-67}, {2571585486209193018ull,-67}, {3403234730009419539ull,-67}, {5143170972418386036ull,-67}, {5974820216218612557ull,-67}, {7587026867280056629ull,-67},
{9454692701036545551ull,-67}, {342315304811360099ull,-66}, {683482917837100508ull,-66}, {841867611108028315ull,-66}, {862304345723631903ull,-66}, {1724608691447263806ull,-66}, {2556257935247490327ull,-66}, {3449217382894527612ull,-66},
{5112515870494980654ull,-66}, {5944165114295207175ull,-66}, {7689210540358074569ull,-66}, {673494088886422652ull,-65}, {1071551337176444742ull,-65}, {1188833022859041435ull,-65}, {2143102674352889484ull,-65}, {2219510890804279001ull,-65},
{4286205348705778968ull,-65}, {4439021781608558002ull,-65}, {8730565852325361805ull,-65}, {8878043563217116004ull,-65}, {9711529113874334029ull,-65}, {475533209143616574ull,-64}, {793979007775634246ull,-64}, {951066418287233148ull,-64},
{1746113170465072361ull,-64}, {1902132836574466296ull,-64}, {3492226340930144722ull,-64}, {3804265673148932592ull,-64}, {6817755571728845839ull,-64}, {7608531346297865184ull,-64}, {9673090315394955217ull,-64}, {412057598297654033ull,-63},
{603552175237746623ull,-63}, {824115196595308066ull,-63}, {1173764928449204525ull,-63}, {1681569815216904853ull,-63}, {2314190434872120329ull,-63}, {3363139630433809706ull,-63}, {5294340911425744855ull,-63}, {6060319219186115215ull,-63},
{9922721781169985513ull,-63}, {939011942759363620ull,-62}, {1058868182285148971ull,-62}, {1212063843837223043ull,-62}, {2117736364570297942ull,-62}, {2424127687674446086ull,-62}, {4235472729140595884ull,-62}, {4848255375348892172ull,-62},
{8470945458281191768ull,-62}, {9243260290909111783ull,-62}, {9989400625222562955ull,-62}, {580710529155517498ull,-61}, {751209554207490896ull,-61}, {1161421058311034996ull,-61}, {1502419108414981792ull,-61}, {1997880125044512591ull,-61},
{2322842116622069992ull,-61}, {3995760250089025182ull,-61}, {5652642325029590977ull,-61}, {7634486391547714173ull,-61}, {9648402575118616159ull,-61}, {659545618270948439ull,-60}, {665960041681504197ull,-60}, {987714821553783719ull,-60},
{1331920083363008394ull,-60}, {1644053228119454279ull,-60}, {2663840166726016788ull,-60}, {2982387734893018431ull,-60}, {5327680333452033576ull,-60}, {6321809578416373053ull,-60}, {7647315238368825689ull,-60}, {800434934699916188ull,-59},
{994129244964339477ull,-59}, {1600869869399832376ull,-59}, {1794564179664255665ull,-59}, {3395434049064088041ull,-59}, {3589128359328511330ull,-59}, {4720939709016540677ull,-59}, {6790868098128176082ull,-59}, {9441879418033081354ull,-59},
{9962253325029330447ull,-59}, {524131361601278977ull,-58}, {717825671865702266ull,-58}, {1048262723202557954ull,-58}, {1435651343731404532ull,-58}, {2096525446405115908ull,-58}, {3285288365285136145ull,-58}, {6570576730570272290ull,-58},
{6984562408392599371ull,-58}, {7865727878624214539ull,-58}, {9829268038561927932ull,-58}, {584899360409954014ull,-57}, {657057673057027229ull,-57}, {755813042997580947ull,-57}, {1314115346114054458ull,-57}, {2069928389111635405ull,-57},
{2628230692228108916ull,-57}, {3870187725695090159ull,-57}, {5256461384456217832ull,-57}, {7470706398861999667ull,-57}, {7740375451390180318ull,-57}, {827971355644654162ull,-56}, {943424655879971306ull,-56}, {1386273658761127673ull,-56},
{2156518364288123263ull,-56}, {2772547317522255346ull,-56}, {4313036728576246526ull,-56}, {5583857087102057055ull,-56}, {6585008393099686933ull,-56}, {9475511178669225258ull,-56}, {9972750607918752417ull,-56}, {654624594104214057ull,-55},
{770244705526995590ull,-55}, {1116771417420411411ull,-55}, {1309249188208428114ull,-55}, {2233542834840822822ull,-55}, {2426020605628839525ull,-55}, {4467085669681645644ull,-55}, {6276910510888888697ull,-55}, {8934171339363291288ull,-55},
{9704082422515358100ull,-55}, {485204121125767905ull,-54}, {616195764421596472ull,-54}, {970408242251535810ull,-54}, {1101399885547364377ull,-54}, {1940816484503071620ull,-54}, {2071808127798900187ull,-54}, {4143616255597800374ull,-54},
{5306502268637352887ull,-54}, {6600379924972733967ull,-54}, {9450118524235153261ull,-54}, {776326593801228648ull,-53}, {1166093768364133431ull,-53}, {1424869299631209647ull,-53}, {1552653187602457296ull,-53}, {2849738599262419294ull,-53},
{4012624612301971807ull,-53}, {8025249224603943614ull,-53}, {8932567461701000829ull,-53}, {9699270789528486723ull,-53}, {9916871826588000076ull,-53}, {598070701706398123ull,-52}, {853638477648893421ull,-52}, {1014677755993384803ull,-52},
{1888740602717198285ull,-52}, {2029355511986769606ull,-52}, {3777481205434396570ull,-52}, {3877247376554127769ull,-52}, {7373498763449381697ull,-52}, {7754494753108255538ull,-52}, {9484551751735831547ull,-52}, {514749290849000787ull,-51},
{755496241086879314ull,-51}, {848034934278590131ull,-51}, {1510992482173758628ull,-51}, {1696069868557180262ull,-51}, {3021984964347517256ull,-51}, {3084882006129994531ull,-51}, {6043969928695034512ull,-51}, {8402997345147383271ull,-51},
{9128851934825029043ull,-51}, {907318237097057215ull,-50}, {1063623067803477748ull,-50}, {1245086715222889191ull,-50}, {1970941304900534963ull,-50}, {2490173430445778382ull,-50}, {3941882609801069926ull,-50}, {7883765219602139852ull,-50},
{8040070050308560385ull,-50}, {9960693721783113528ull,-50}, {9984251703066719983ull,-50}, {529295652230439783ull,-49}, {725854589677645772ull,-49}, {1451709179355291544ull,-49}, {1608014010061712077ull,-49}, {3059723189417003621ull,-49},
{3216028020123424154ull,-49}, {4864296136925921687ull,-49}, {7687206282154933863ull,-49}, {8473442031943757819ull,-49}, {9098661354769439951ull,-49}, {549422705600832511ull,-48}, {705727536307253044ull,-48}, {847815362820047911ull,-48},
{1411455072614506088ull,-48}, {1695630725640095822ull,-48}, {2822910145229012176ull,-48}, {3263390628961022443ull,-48}, {5645820290458024352ull,-48}, {6526781257922044886ull,-48}, {9411271016182281017ull,-48}, {489744174156989431ull,-47},
{514376019369479013ull,-47}, {753090145144851333ull,-47}, {1028752038738958026ull,-47}, {1506180290289702666ull,-47}, {2283902280647043581ull,-47}, {3012360580579405332ull,-47}, {3790082570936746247ull,-47}, {6024721161158810664ull,-47},
{6802443151516151579ull,-47}, {551323787188213386ull,-46}, {1004120193526468444ull,-46}, {1102647574376426772ull,-46}, {2008240387052936888ull,-46}, {2049750750681385361ull,-46}, {4016480774105873776ull,-46}, {4199698747929640941ull,-46},
{8032961548211747552ull,-46}, {8499594742426152101ull,-46}, {9121772334712024833ull,-46}, {503276788979157982ull,-45}, {741078395592587482ull,-45}, {1088810786500277281ull,-45}, {1482156791185174964ull,-45}, {1948789985399579513ull,-45},
{2964313582370349928ull,-45}, {4290925975484056709ull,-45}, {5535281160055802173ull,-45}, {6944150761711470271ull,-45}, {9432861130854961199ull,-45}, {501330081433679966ull,-44}, {514193515537090449ull,-44}, {1015523596970770415ull,-44},
{1028387031074180898ull,-44}, {2043910628044951313ull,-44}, {2056774062148361796ull,-44}, {4087821256089902626ull,-44}, {4100684690193313109ull,-44}, {6537941322923162105ull,-44}, {9839070569643269365ull,-44}, {812418877576616332ull,-43},
{825282311680026815ull,-43}, {1307588264584632421ull,-43}, {1967814113928653873ull,-43}, {2615176529169264842ull,-43}, {3935628227857307746ull,-43}, {5573329417113950893ull,-43}, {7871256455714615492ull,-43}, {8848731795627237187ull,-43},
{9534684513178079605ull,-43}, {512744558551124582ull,-42}, {660225849344021452ull,-42}, {977475339912621695ull,-42}, {1320451698688042904ull,-42}, {1954950679825243390ull,-42}, {2688917174565713277ull,-42}, {3861887582460859311ull,-42},
{5377834349131426554ull,-42}, {7675761387732091153ull,-42}, {7723775164921718622ull,-42}, {390990135965048678ull,-41}, {508975168599366174ull,-41}, {781980271930097356ull,-41}, {1065964114388359817ull,-41}, {1563960543860194712ull,-41},
{2131928228776719634ull,-41}, {3079907310530761955ull,-41}, {4263856457553439268ull,-41}, {6159814621061523910ull,-41}, {9807689616508810787ull,-41}, {615981462106152391ull,-40}, {833565780634836866ull,-40}, {1231962924212304782ull,-40},
{1449547242740989257ull,-40}, {2463925848424609564ull,-40}, {4179071186883910765ull,-40}, {4927851696849219128ull,-40}, {8358142373767821530ull,-40}, {8652314321607029802ull,-40}, {9855703393698438256ull,-40}, {792297373671045258ull,-39},
{835814237376782153ull,-39}, {1628111611047827411ull,-39}, {1671628474753564306ull,-39}, {3299740085801391717ull,-39}, {3343256949507128612ull,-39}, {6642997035308520329ull,-39}, {6686513899014257224ull,-39}, {6818796961433404832ull,-39},
{9935195565275299743ull,-39}, {346973092739360084ull,-38}, {619101281527998985ull,-38}, {685242812737572789ull,-38}, {1238202563055997970ull,-38}, {1361782252733998199ull,-38}, {2467701753370848561ull,-38}, {2724155667979129627ull,-38},
{4935403506741697122ull,-38}, {5448311335958259254ull,-38}, {9748368632596197709ull,-38}, {548312482692284877ull,-37}, {990562050444798376ull,-37}, {1096624965384569754ull,-37}, {2130703879535105025ull,-37}, {2193249930769139508ull,-37},
{4271733573857360259ull,-37}, {5281324811830456223ull,-37}, {5420578775688814287ull,-37}, {8693046926360228791ull,-37}, {9727125840510764062ull,-37}, {452575382539663708ull,-36}, {826495921999800439ull,-36}, {1000563376822748019ull,-36},
{1139817340681106083ull,-36}, {2001126753645496038ull,-36}, {3210571076255781153ull,-36}, {4002253507290992076ull,-36}, {6421142152511562306ull,-36}, {7073570619688415165ull,-36}, {9118538725448848664ull,-36}, {381142828380415087ull,-35},
{586412629707813005ull,-35}, {725666593566171069ull,-35}, {1172825259415626010ull,-35}, {1414714123937683033ull,-35}, {2382269582025911125ull,-35}, {2829428247875366066ull,-35}, {4764539164051822250ull,-35}, {6663031017033619329ull,-35},
{8524903806820757303ull,-35}, {938260207532500808ull,-34}, {952907832810364450ull,-34}, {1876520415065001616ull,-34}, {1905815665620728900ull,-34}, {2807456809958570603ull,-34}, {3811631331241457800ull,-34}, {4669329599745708577ull,-34},
{8568846682654348229ull,-34}, {9338659199491417154ull,-34}, {9573021203937235426ull,-34}, {549773261769423207ull,-33}, {762326266248291560ull,-33}, {1312099528017714767ull,-33}, {1524652532496583120ull,-33}, {2836752060514297887ull,-33},
{3049305064993166240ull,-33}, {5886057125507464127ull,-33}, {6098610129986332480ull,-33}, {7777225165850329385ull,-33}, {8202331174808066091ull,-33}, {397308008519764895ull,-32}, {609861012998633248ull,-32}, {1007169021518398143ull,-32},
{1219722025997266496ull,-32}, {1555445033170065877ull,-32}, {2439444051994532992ull,-32}, {3110890066340131754ull,-32}, {3994889085164598869ull,-32}, {7105779151504730623ull,-32}, {7989778170329197738ull,-32}, {601905812722630129ull,-31},
{989292421161410678ull,-31}, {1203811625445260258ull,-31}, {1978584842322821356ull,-31}, {2298397448943614499ull,-31}, {3957169684645642712ull,-31}, {4596794897887228998ull,-31}, {8730764386297765133ull,-31}, {9193589795774457996ull,-31},
{9952633414212169278ull,-31}, {530399411294680269ull,-30}, {649994093917213804ull,-30}, {1060798822589360538ull,-30}, {1180393505211894073ull,-30}, {2121597645178721076ull,-30}, {2948391542860828303ull,-30}, {3655590757920401995ull,-30},
{5896783085721656606ull,-30}, {8377164778767978287ull,-30}, {9552373843642058601ull,-30}, {406621920916614019ull,-29}, {707199215059573692ull,-29}, {731118151584080399ull,-29}, {826793897682107227ull,-29}, {1462236303168160798ull,-29},
{2336868073899281439ull,-29}, {2924472606336321596ull,-29}, {5357016426333629863ull,-29}, {5848945212672643192ull,-29}, {9648049589740085429ull,-29}, {628584842046026726ull,-28}, {1147943882145147435ull,-28}, {1229904501363120573ull,-28},
{2295887764290294870ull,-28}, {2459809002726241146ull,-28}, {4345728599895495825ull,-28}, {5712289156965629795ull,-28}, {8691457199790991650ull,-28}, {9538658716762004911ull,-28}, {9921691843216461225ull,-28}, {819936334242080382ull,-27},
{869145719979099165ull,-27}, {1142457831393125959ull,-27}, {1738291439958198330ull,-27}, {2284915662786251918ull,-27}, {3476582879916396660ull,-27}, {4569831325572503836ull,-27}, {6953165759832793320ull,-27}, {9139662651145007672ull,-27},
{9833915031184117609ull,-27}, {398996065616997239ull,-26}, {695316575983279332ull,-26}, {895346706763862649ull,-26}, {1390633151966558664ull,-26}, {1689082054221179547ull,-26}, {2781266303933117328ull,-26}, {3378164108442359094ull,-26},
{4072416488481469031ull,-26}, {6654716857578172437ull,-26}, {6756328216884718188ull,-26}, {695955093549780969ull,-25}, {794161025834984656ull,-25}, {1290298827793016187ull,-25}, {1391910187099561938ull,-25}, {2485797150322170751ull,-25},
{2580597655586032374ull,-25}, {4863172087295111623ull,-25}, {4971594300644341502ull,-25}, {9645165377411729879ull,-25}, {9726344174590223246ull,-25}, {494435088447360499ull,-24}, {518843872734280126ull,-24}, {978083100693169627ull,-24},
{988870176894720998ull,-24}, {1918135709014051371ull,-24}, {1956166201386339254ull,-24}, {3836271418028102742ull,-24}, {3852727757997287883ull,-24}, {7645850871219185141ull,-24}, {7672542836056205484ull,-24}, {382603579316026754ull,-23},
{392256802764051371ull,-23}, {765207158632053508ull,-23}, {772592676573024617ull,-23}, {1530414317264107016ull,-23}, {1533264424190971109ull,-23}, {3054607919426864093ull,-23}, {3060828634528214032ull,-23}, {6109215838853728186ull,-23},
{6109736340101349939ull,-23}, {610817483635848468ull,-22}, {612269827155167157ull,-22}, {1221634967271696936ull,-22}, {1222155468519318689ull,-22}, {2441926751247621753ull,-22}, {2443269934543393872ull,-22}, {4883853502495243506ull,-22},
{4884155683295772119ull,-22}, {9765927180800528613ull,-22}, {9767707004990487012ull,-22}, {488324914089418628ull,-21}, {488714423068784497ull,-21}, {976649828178837256ull,-21}, {976952008979365869ull,-21}, {1953299656357674512ull,-21},
{1953427180800528613ull,-21}, {3906377524442854101ull,-21}, {3906599312715349024ull,-21}, {7812721788272494923ull,-21}, {7812755048885708202ull,-21}, {390641078505606738ull,-20}, {390704288926033887ull,-20}, {781282157011213476ull,-20},
{781313210420427149ull,-20}, {1562531053409213673ull,-20}, {1562564314022426952ull,-20}, {3125033260613213279ull,-20}, {3125062106818427346ull,-20}, {6250028846205214067ull,-20}, {6250066521226426558ull,-20}, {312507093563442577ull,-19},
{312511979922885548ull,-19}, {625004886359442971ull,-19}, {625014187126885154ull,-19}, {1250009300767442183ull,-19}, {1250009772718885942ull,-19}, {2500000471951443759ull,-19}, {2500018601534884366ull,-19}, {5000000943902887518ull,-19},
{5000018129583440607ull,-19}, {500000471951443759ull,-18}, {500003342745821866ull,-18}, {1000000943902887518ull,-18}, {1000002870794378107ull,-18}, {2000001887805775036ull,-18}, {2000001926891490589ull,-18}, {4000000039085715553ull,-18},
{4000003775611550072ull,-18}, {8000000078171431106ull,-18}, {8000003736525834519ull,-18}, {400000361926868786ull,-17}, {400000401012584339ull,-17}, {800000039085715553ull,-17}, {800000723853737572ull,-17}, {1600000078171431106ull,-17},
{1600000684768022019ull,-17}, {3200000156342862212ull,-17}, {3200000606596590913ull,-17}, {6400000312685724424ull,-17}, {6400000450253728701ull,-17}, {320000074416459519ull,-16}, {320000078171431106ull,-16}, {640000003754971587ull,-16},
{640000148832919038ull,-16}, {1280000007509943174ull,-16}, {1280000145077947451ull,-16}, {2560000015019886348ull,-16}, {2560000137568004277ull,-16}, {5120000030039772696ull,-16}, {5120000122548117929ull,-16}, {512000015019886348ull,-15},
{512000015497691777ull,-15}, {1024000000477805429ull,-15}, {1024000030039772696ull,-15}, {2048000000955610858ull,-15}, {2048000029561967267ull,-15}, {4096000001911221716ull,-15}, {4096000028606356409ull,-15}, {8192000003822443432ull,-15},
{8192000026695134693ull,-15}, {409600000955610858ull,-14}, {409600005147904767ull,-14}, {819200001911221716ull,-14}, {819200004192293909ull,-14}, {1638400002281072193ull,-14}, {1638400003822443432ull,-14}, {3276800001541371239ull,-14},
{3276800004562144386ull,-14}, {6553600003020773147ull,-14}, {6553600003082742478ull,-14}, {327680000160334057ull,-13}, {327680001060369068ull,-13}, {655360000320668114ull,-13}, {655360000900035011ull,-13}, {1310720000579366897ull,-13},
{1310720000641336228ull,-13}, {2621440000061969331ull,-13}, {2621440001158733794ull,-13}, {5242880000123938662ull,-13}, {5242880001096764463ull,-13}, {524288000061969331ull,-12}, {524288000182171294ull,-12}, {1048576000120201963ull,-12},
{1048576000123938662ull,-12}, {2097152000003736699ull,-12}, {2097152000240403926ull,-12}, {4194304000007473398ull,-12}, {4194304000236667227ull,-12}, {8388608000014946796ull,-12}, {8388608000229193829ull,-12}, {419430400003736699ull,-11},
{419430400045091426ull,-11}, {838860800007473398ull,-11}, {838860800041354727ull,-11}, {1677721600014946796ull,-11}, {1677721600033881329ull,-11}, {3355443200018934533ull,-11}, {3355443200029893592ull,-11}, {6710886400010959059ull,-11},
{6710886400037869066ull,-11}, {335544320004584454ull,-10}, {335544320005181171ull,-10}, {671088640000596717ull,-10}, {671088640009168908ull,-10}, {1342177280001193434ull,-10}, {1342177280008572191ull,-10}, {2684354560002386868ull,-10},
{2684354560007378757ull,-10}, {5368709120004773736ull,-10}, {5368709120004991889ull,-10}, {536870912000433743ull,-9}, {536870912001519382ull,-9}, {1073741824000867486ull,-9}, {1073741824001085639ull,-9}, {2147483648000218153ull,-9},
{2147483648001734972ull,-9}, {4294967296000436306ull,-9}, {4294967296001516819ull,-9}, {8589934592000872612ull,-9}, {8589934592001080513ull,-9}, {429496729600172472ull,-8}, {429496729600218153ull,-8}, {858993459200045681ull,-8},
{858993459200344944ull,-8}, {1717986918400091362ull,-8}, {1717986918400299263ull,-8}, {3435973836800182724ull,-8}, {3435973836800207901ull,-8}, {6871947673600025177ull,-8}, {6871947673600365448ull,-8}, {343597383680013237ull,-7},
{343597383680064888ull,-7}, {687194767360026474ull,-7}, {687194767360051651ull,-7}, {1374389534720025177ull,-7}, {1374389534720052948ull,-7}, {2748779069440027771ull,-7}, {2748779069440050354ull,-7}, {5497558138880022583ull,-7},
{5497558138880055542ull,-7}, {549755813888003479ull,-6}, {549755813888012146ull,-6}, {1099511627776006958ull,-6}, {1099511627776008667ull,-6}, {2199023255552001709ull,-6}, {2199023255552013916ull,-6}, {4398046511104003418ull,-6},
{4398046511104012207ull,-6}, {8796093022208006836ull,-6}, {8796093022208008789ull,-6}, {439804651110401416ull,-5}, {439804651110401709ull,-5}, {879609302220800293ull,-5}, {879609302220802832ull,-5}, {1759218604441600586ull,-5},
{1759218604441602539ull,-5}, {3518437208883201172ull,-5}, {3518437208883201953ull,-5}, {7036874417766400781ull,-5}, {7036874417766402344ull,-5}, {351843720888320039ull,-4}, {351843720888320586ull,-4}, {703687441776640078ull,-4},
{703687441776640547ull,-4}, {1407374883553280156ull,-4}, {1407374883553280469ull,-4}, {2814749767106560312ull,-4}, {2814749767106560313ull,-4}, {5629499534213120624ull,-4}, {5629499534213120625ull,-4}, {5629499534213120626ull,-4},
{562949953421312062ull,-3}, {562949953421312063ull,-3}, {1125899906842624124ull,-3}, {1125899906842624125ull,-3}, {1125899906842624126ull,-3}, {2251799813685248249ull,-3}, {2251799813685248250ull,-3}, {2251799813685248251ull,-3},
{4503599627370496499ull,-3}, {4503599627370496500ull,-3}, {4503599627370496501ull,-3}, {9007199254740992999ull,-3}, {9007199254740993000ull,-3}, {9007199254740993001ull,-3}, {450359962737049649ull,-2}, {450359962737049650ull,-2},
{450359962737049651ull,-2}, {900719925474099299ull,-2}, {900719925474099300ull,-2}, {900719925474099301ull,-2}, {1801439850948198599ull,-2}, {1801439850948198600ull,-2}, {1801439850948198601ull,-2}, {3602879701896397199ull,-2},
{3602879701896397200ull,-2}, {3602879701896397201ull,-2}, {7205759403792794399ull,-2}, {7205759403792794400ull,-2}, {7205759403792794401ull,-2}, {360287970189639719ull,-1}, {360287970189639720ull,-1}, {360287970189639721ull,-1},
{720575940379279439ull,-1}, {720575940379279440ull,-1}, {720575940379279441ull,-1}, {1441151880758558879ull,-1}, {1441151880758558880ull,-1}, {1441151880758558881ull,-1}, {2882303761517117759ull,-1}, {2882303761517117760ull,-1},
{2882303761517117761ull,-1}, {5764607523034235519ull,-1}, {5764607523034235520ull,-1}, {5764607523034235521ull,-1}, {576460752303423551ull,0}, {576460752303423552ull,0}, {576460752303423553ull,0}, {1152921504606847103ull,0},
{1152921504606847104ull,0}, {1152921504606847105ull,0}, {2305843009213694207ull,0}, {2305843009213694208ull,0}, {2305843009213694209ull,0}, {4611686018427388415ull,0}, {4611686018427388416ull,0}, {4611686018427388417ull,0},
{9223372036854776831ull,0}, {9223372036854776832ull,0}, {9223372036854776833ull,0}, {461168601842738944ull,1}, {461168601842739149ull,1}, {461168601842739251ull,1}, {922337203685477683ull,1}, {922337203685477888ull,1},
{922337203685478093ull,1}, {1844674407370955776ull,1}, {1844674407370956595ull,1}, {1844674407370957005ull,1}, {3689348814741910733ull,1}, {3689348814741911552ull,1}, {3689348814741912371ull,1}, {7378697629483823104ull,1},
{7378697629483826381ull,1}, {7378697629483828019ull,1}, {368934881474191319ull,2}, {368934881474191401ull,2}, {368934881474192384ull,2}, {737869762948383785ull,2}, {737869762948384768ull,2}, {737869762948385751ull,2},
{1475739525896768553ull,2}, {1475739525896769536ull,2}, {1475739525896770519ull,2}, {2951479051793529897ull,2}, {2951479051793531863ull,2}, {2951479051793539072ull,2}, {5902958103587068969ull,2}, {5902958103587078144ull,2},
{5902958103587087319ull,2}, {590295810358712533ull,3}, {590295810358714368ull,3}, {590295810358716203ull,3}, {1180591620717426901ull,3}, {1180591620717428736ull,3}, {1180591620717430571ull,3}, {2361183241434822869ull,3},
{2361183241434826539ull,3}, {2361183241434857472ull,3}, {4722366482869680341ull,3}, {4722366482869714944ull,3}, {4722366482869749547ull,3}, {9444732965739333419ull,3}, {9444732965739429888ull,3}, {9444732965739526357ull,3},
{472236648286977681ull,4}, {472236648286978415ull,4}, {472236648287010816ull,4}, {944473296573988497ull,4}, {944473296574021632ull,4}, {944473296574054767ull,4}, {1888946593148010129ull,4}, {1888946593148043264ull,4},
{1888946593148076399ull,4}, {3777893186295791249ull,4}, {3777893186295857519ull,4}, {3777893186296086528ull,4}, {7555786372591877777ull,4}, {7555786372592173056ull,4}, {7555786372592468335ull,4}, {377789318629811741ull,5},
{377789318629818368ull,5}, {377789318629824995ull,5}, {755578637259367965ull,5}, {755578637259381219ull,5}, {755578637259636736ull,5}, {1511157274518493667ull,5}, {1511157274519004701ull,5}, {1511157274519273472ull,5},
{3022314549037229597ull,5}, {3022314549037767139ull,5}, {3022314549038546944ull,5}, {6044629098073679389ull,5}, {6044629098076314083ull,5}, {6044629098077093888ull,5}, {604462909808811719ull,6}, {604462909808967680ull,6},
{604462909809123641ull,6}, {1208925819617779399ull,6}, {1208925819617935360ull,6}, {1208925819618091321ull,6}, {2417851639231520455ull,6}, {2417851639231832377ull,6}, {2417851639235870720ull,6}, {4835703278459002567ull,6},
{4835703278467703097ull,6}, {4835703278471741440ull,6}, {9671406556922667321ull,6}, {9671406556930744007ull,6}, {9671406556943482880ull,6}, {483570327846304091ull,7}, {483570327847174144ull,7}, {483570327848044197ull,7},
{967140655694348288ull,7}, {967140655701866843ull,7}, {967140655703606949ull,7}, {1934281311388696576ull,7}, {1934281311397955237ull,7}, {1934281311412992347ull,7}, {3868562622777393152ull,7}, {3868562622801688923ull,7},
{3868562622820206245ull,7}, {7737125245554786304ull,7}, {7737125245579082075ull,7}, {7737125245664708261ull,7}, {386856262291161088ull,8}, {386856262306434593ull,8}, {386856262309442015ull,8}, {773712524564041249ull,8},
{773712524582322176ull,8}, {773712524600603103ull,8}, {1547425049115816415ull,8}, {1547425049164644352ull,8}, {1547425049213472289ull,8}, {3094850098280460767ull,8}, {3094850098329288704ull,8}, {3094850098378116641ull,8},
{6189700196609749471ull,8}, {6189700196658577408ull,8}, {6189700196707405345ull,8}, {618970019719544832ull,9}, {618970019817153427ull,9}, {618970019890371693ull,9}, {1237940039341481069ull,9}, {1237940039439089664ull,9},
{1237940039536698259ull,9}, {2475880078780570733ull,9}, {2475880078878179328ull,9}, {2475880078975787923ull,9}, {4951760157756358656ull,9}, {4951760158732491885ull,9}, {4951760158927709075ull,9}, {9903520314536584083ull,9},
{9903520315512717312ull,9}, {9903520316488850541ull,9}, {495176016400359241ull,10}, {495176016419880960ull,10}, {495176016439402679ull,10}, {990352031746498377ull,10}, {990352031785541815ull,10}, {990352032839761920ull,10},
{1980704064625303735ull,10}, {1980704065679523840ull,10}, {1980704066733743945ull,10}, {3961408126009860279ull,10}, {3961408128118300489ull,10}, {3961408131359047680ull,10}, {7922816257368907959ull,10}, {7922816262718095360ull,10},
{7922816268067282761ull,10}, {396140812925060747ull,11}, {396140813135904768ull,11}, {396140813346748789ull,11}, {792281626271809536ull,11}, {792281630355932811ull,11}, {792281630777620853ull,11}, {1584563252543619072ull,11},
{1584563257049430389ull,11}, {1584563265217676939ull,11}, {3169126500581426827ull,11}, {3169126505087238144ull,11}, {3169126509593049461ull,11}, {6338253010174476288ull,11}, {6338253040028403339ull,11}, {6338253049040025973ull,11},
{316912657380671488ull,12}, {316912665153781425ull,12}, {316912666787430735ull,12}, {633825306988233039ull,12}, {633825314761342976ull,12}, {633825322534452913ull,12}, {1267650621749576015ull,12}, {1267650629522685952ull,12},
{1267650637295795889ull,12}, {2535301251272261967ull,12}, {2535301259045371904ull,12}, {2535301266818481841ull,12}, {5070602518090743808ull,12}, {5070602647756587343ull,12}, {5070602663302807217ull,12}, {507060308339277757ull,13},
{507060334272446464ull,13}, {507060360205615171ull,13}, {1014120642611724221ull,13}, {1014120668544892928ull,13}, {1014120694478061635ull,13}, {2028241311156617149ull,13}, {2028241337089785856ull,13}, {2028241363022954563ull,13},
{4056482648246403005ull,13}, {4056482674179571712ull,13}, {4056482700112740419ull,13}, {8112964222914346941ull,13}, {8112964274780684355ull,13}, {8112965348359143424ull,13}, {405648482133648985ull,14}, {405648597271445504ull,14},
{405648712409242023ull,14}, {811296529649280601ull,14}, {811296759924873639ull,14}, {811297194542891008ull,14}, {1622592854956136871ull,14}, {1622593724192171609ull,14}, {1622594389085782016ull,14}, {3245188113277953625ull,14},
{3245188778171564032ull,14}, {3245189443065174439ull,14}, {6490376891449517657ull,14}, {6490377556343128064ull,14}, {6490378221236738471ull,14}, {324519450600529595ull,15}, {324519757426458624ull,15}, {324520064252387653ull,15},
{649037622655590725ull,15}, {649039514852917248ull,15}, {649041407050243771ull,15}, {1298077137508507973ull,15}, {1298079029705834496ull,15}, {1298080921903161019ull,15}, {2596151155515973307ull,15}, {2596158059411668992ull,15},
{2596164963307364677ull,15}, {5192305430532989253ull,15}, {5192316118823337984ull,15}, {5192326807113686715ull,15}, {519240786414821311ull,16}, {519242167193960448ull,16}, {519243547973099585ull,16}, {1038465361422737343ull,16},
{1038468122981015617ull,16}, {1038484334387920896ull,16}, {2076949695810658239ull,16}, {2076968668775841792ull,16}, {2076987641741025345ull,16}, {4153847995842322367ull,16}, {4153885941772689473ull,16}, {4153937337551683584ull,16},
{8307823279324373057ull,16}, {8307874675103367168ull,16}, {8307926070882361279ull,16}, {415397528348205069ull,17}, {415421881252839424ull,17}, {415446234157473779ull,17}, {830797746666135539ull,17}, {830843762505678848ull,17},
{830889778345222157ull,17}, {1661641509171814387ull,17}, {1661687525011357696ull,17}, {1661733540850901005ull,17}, {3323329034183172083ull,17}, {3323375050022715392ull,17}, {3323421065862258701ull,17}, {6646704084205887475ull,17},
{6646750100045430784ull,17}, {6646796115884974093ull,17}, {332346708170180201ull,18}, {332497186820389271ull,18}, {332562684983640064ull,18}, {664778396827318679ull,18}, {664909393153820265ull,18}, {665125369967280128ull,18},
{1329340816841177495ull,18}, {1330034763121100393ull,18}, {1330250739934560256ull,18}, {2658465656868895127ull,18}, {2660285503055660649ull,18}, {2660501479869120512ull,18}, {5318535183111095913ull,18}, {5318967136738015639ull,18},
{5321002959738241024ull,18}, {532143491336516075ull,19}, {532550655936561152ull,19}, {532957820536606229ull,19}, {1064694147273077227ull,19}, {1065101311873122304ull,19}, {1065508476473167381ull,19}, {2130202623746244608ull,19},
{2134299058773570027ull,19}, {2135113387973660181ull,19}, {4256308812465163797ull,19}, {4260405247492489216ull,19}, {4264501682519814635ull,19}, {8520810494984978432ull,19}, {8534728458467134997ull,19}, {8542921328521785835ull,19},
{427841964600197120ull,20}, {430625557296628433ull,20}, {434065571158506799ull,20}, {852900336503962927ull,20}, {855683929200394240ull,20}, {858467521896825553ull,20}, {1708584265704357167ull,20}, {1711367858400788480ull,20},
{1714151451097219793ull,20}, {3422735716801576960ull,20}, {3455980921124109615ull,20}, {3461548106516972241ull,20}, {6806659043887758639ull,20}, {6845471433603153920ull,20}, {6884283823318549201ull,20}, {342273571680157696ull,21},
{348922612544664227ull,21}, {371653327834615133ull,21}, {684547143360315392ull,21}, {691196184224821923ull,21}, {749955696533736797ull,21}, {1369094286720630784ull,21}, {1434502839894052189ull,21}, {1447800921623065251ull,21},
{2738188573441261568ull,21}, {2803597126614682973ull,21}, {2961010396419551907ull,21}, {5476377146882523136ull,21}, {5541785700055944541ull,21}, {5987429346012525219ull,21}, {707494229744595079ull,22}, {720575940379279360ull,22},
{733657651013963641ull,22}, {1428070170123874439ull,22}, {1441151880758558720ull,22}, {1454233591393243001ull,22}, {2869222050882433159ull,22}, {2882303761517117440ull,22}, {2895385472151801721ull,22}, {4598604307792703623ull,22},
{4624767729062072185ull,22}, {5764607523034234880ull,22}, {9197208615585407246ull,22}, {9249535458124144370ull,22}, {576460752303423488ull,23}, {804428711097856027ull,23}, {817510421732540308ull,23}, {924953545812414437ull,23},
{1152921504606846976ull,23}, {1380889463401279515ull,23}, {1849907091624828874ull,23}, {2305843009213693952ull,23}, {2761778926802559030ull,23}, {4611686018427387904ull,23}, {5523557853605118060ull,23}, {6233625151257784239ull,23},
{8513304739202109629ull,23}, {9223372036854775808ull,23}, {9933439334507441987ull,23}, {420807694337725995ull,24}, {552355785360511806ull,24}, {841615388675451990ull,24}, {1104711570721023612ull,24}, {1621939132830396335ull,24},
{2209423141442047224ull,24}, {3182586621140285025ull,24}, {4418846282884094448ull,24}, {6365173242280570050ull,24}, {7601432904024379473ull,24}, {624258995323955476ull,25}, {636517324228057005ull,25}, {1248517990647910952ull,25},
{1273034648456114010ull,25}, {2546069296912228020ull,25}, {3782328958656037443ull,25}, {5092138593824456040ull,25}, {8849950894672290425ull,25}, {9095117472754321005ull,25}, {9988143925183287616ull,25}, {509213859382445604ull,26},
{727045802361363819ull,26}, {1018427718764891208ull,26}, {1769990178934458085ull,26}, {2036855437529782416ull,26}, {3539980357868916170ull,26}, {4073710875059564832ull,26}, {6862128772758914125ull,26}, {8147421750119129664ull,26},
{8365253693098047879ull,26}, {664429682977999591ull,27}, {707996071573783234ull,27}, {1328859365955999182ull,27}, {1372425754551782825ull,27}, {2701285120507782007ull,27}, {2744851509103565650ull,27}, {5402570241015564014ull,27},
{5489703018207131300ull,27}, {5881800515569184087ull,27}, {9933812710115455168ull,27}, {1010807826449858974ull,28}, {1097940603641426260ull,28}, {2021615652899717948ull,28}, {2195881207282852520ull,28}, {3163122645136927851ull,28},
{4391762414565705040ull,28}, {5446136629611347657ull,28}, {8783524829131410080ull,28}, {9498148824157618738ull,28}, {9646071712300247755ull,28}, {529821374146871864ull,29}, {878352482913141008ull,29}, {1059642748293743728ull,29},
{1756704965826282016ull,29}, {1943263764454985847ull,29}, {3513409931652564032ull,29}, {3710505796777470085ull,29}, {7202841595437629673ull,29}, {7421011593554940170ull,29}, {9829118155430217512ull,29}, {459061445743997813ull,30},
{597068947051011841ull,30}, {742101159355494017ull,30}, {1370159626234525291ull,30}, {2740319252469050582ull,30}, {2916340984601552191ull,30}, {5656660237070602773ull,30}, {5832681969203104382ull,30}, {6160760624637556315ull,30},
{9905146617081192674ull,30}, {699293966763896179ull,31}, {1060923354561119911ull,31}, {1232152124927511263ull,31}, {2121846709122239822ull,31}, {3001955369784747867ull,31}, {4243693418244479644ull,31}, {7245648788029227511ull,31},
{8487386836488959288ull,31}, {9357909573619246819ull,31}, {9844155967335337233ull,31}, {485192111145228094ull,32}, {922981745914784778ull,32}, {937097060570399969ull,32}, {1845963491829569556ull,32}, {1874194121140799938ull,32},
{3725214145379195331ull,32}, {3748388242281599876ull,32}, {7450428290758390662ull,32}, {7496776484563199752ull,32}, {9708059353188011160ull,32}, {394811121260193719ull,33}, {718413099699794091ull,33}, {756335080800331219ull,33},
{1470113361119644401ull,33}, {1512670161600662438ull,33}, {2973513883959345021ull,33}, {4153312428359445269ull,33}, {4219886751799557707ull,33}, {6246612223399196013ull,33}, {8439773503599115414ull,33}, {790717891607821591ull,34},
{857292215047934029ull,34}, {1581435783215643182ull,34}, {2126586956759806963ull,34}, {2884017686647572335ull,34}, {4253173913519613926ull,34}, {6313186546839308451ull,34}, {7961196653495064071ull,34}, {9875504053911269443ull,34},
{9900617225957797997ull,34}, {576803537329514467ull,35}, {957153700208102686ull,35}, {1153607074659028934ull,35}, {1698758248203192715ull,35}, {2307214149318057868ull,35}, {3511569365524523897ull,35}, {4614428298636115736ull,35},
{6477987557504884013ull,35}, {7682342773711350042ull,35}, {8455599685491790757ull,35}, {484253403687239267ull,36}, {679503299281277086ull,36}, {813855425018390391ull,36}, {1513657980918642315ull,36}, {1627710850036780782ull,36},
{3027315961837284630ull,36}, {3100770317717473421ull,36}, {6054631923674569260ull,36}, {9155402241392042681ull,36}, {9464705006104218967ull,36}, {712944892957147570ull,37}, {1210926384734913852ull,37}, {1769219895335973279ull,37},
{2078522660048149565ull,37}, {2885806916538092133ull,37}, {3538439790671946558ull,37}, {5771613833076184266ull,37}, {8348117984902100113ull,37}, {9817407132063999010ull,37}, {9999770504918146711ull,37}, {604383259075219909ull,38},
{961935638846030711ull,38}, {1174739173440937965ull,38}, {1923871277692061422ull,38}, {2054397852518832307ull,38}, {3847742555384122844ull,38}, {4108795705037664614ull,38}, {5902140407902955151ull,38}, {8217591410075329228ull,38},
{8966723514326452685ull,38}, {469895669376375186ull,39}, {696921474320415103ull,39}, {939791338752750372ull,39}, {1480080923281040413ull,39}, {1793344702865290537ull,39}, {2211029742310957369ull,39}, {3586689405730581074ull,39},
{4422059484621914738ull,39}, {7173378811461162148ull,39}, {8844118969243829476ull,39}, {341421345645016066ull,40}, {626527559168500248ull,40}, {682842691290032132ull,40}, {1253055118337000496ull,40}, {2002187222588123953ull,40},
{2134766048510306603ull,40}, {3235293779246005567ull,40}, {4004374445176247906ull,40}, {5171191588873038195ull,40}, {8008748890352495812ull,40}, {503799538504294070ull,41}, {954691022221298049ull,41}, {1034238317774607639ull,41},
{1909382044442596098ull,41}, {2837557301479457617ull,41}, {3049683422954949857ull,41}, {4906033937028672895ull,41}, {6099366845909899714ull,41}, {8273906542196861112ull,41}, {9812067874057345790ull,41}, {403039630803435256ull,42},
{790293278077791563ull,42}, {981206787405734579ull,42}, {1066057235995931475ull,42}, {2132114471991862950ull,42}, {2986045586512302185ull,42}, {5118160058504165135ull,42}, {5972091173024604370ull,42}, {7849654299245876632ull,42},
{9042987208127103451ull,42}, {426422894398372590ull,43}, {597209117302460437ull,43}, {1023632011700833027ull,43}, {1194418234604920874ull,43}, {2047264023401666054ull,43}, {2388836469209841748ull,43}, {4094528046803332108ull,43},
{4777672938419683496ull,43}, {6654150738917261703ull,43}, {9555345876839366992ull,43}, {682276631037396144ull,44}, {1024717337424527082ull,44}, {1364553262074792288ull,44}, {1877346061076533451ull,44}, {2901195137922105289ull,44},
{3582603508380546189ull,44}, {4948893291613248965ull,44}, {8018704000992053991ull,44}, {8700112371450494891ull,44}, {9897786583226497930ull,44}, {476985859320908630ull,45}, {785356147185117523ull,45}, {989778658322649793ull,45},
{1262342006506026153ull,45}, {2524684013012052306ull,45}, {3105617649059637559ull,45}, {3378180997243013919ull,45}, {6211235298119275118ull,45}, {6756361994486027838ull,45}, {9589416295362289037ull,45}, {381588687456726904ull,46},
{635446305684260525ull,46}, {908009653867636885ull,46}, {1126060332414337973ull,46}, {1816019307735273770ull,46}, {2252120664828675946ull,46}, {2833054300876261199ull,46}, {4504241329657351892ull,46}, {5666108601752522398ull,46},
{9807466973908990125ull,46}, {581254540093755842ull,47}, {726407723094109508ull,47}, {1452815446188219016ull,47}, {1961493394781798025ull,47}, {3414308840970017041ull,47}, {3922986789563596050ull,47}, {7337295630533613091ull,47},
{7845973579127192100ull,47}, {8791394692906514463ull,47}, {9587811775131436092ull,47}, {784597357912719210ull,48}, {798984314594286341ull,48}, {1060516767231859411ull,48}, {1569194715825438420ull,48}, {2629711483057297831ull,48},
{3138389431650876840ull,48}, {5768100914708174671ull,48}, {6276778863301753680ull,48}, {7860360535808759231ull,48}, {8877716432995917249ull,48}, {537451861956713271ull,49}, {627677886330175368ull,49}, {746677824066771727ull,49},
{1255355772660350736ull,49}, {1493355648133543454ull,49}, {2510711545320701472ull,49}, {3675841293607590111ull,49}, {5021423090641402944ull,49}, {7351682587215180222ull,49}, {8040812584555683425ull,49}, {590806619723978667ull,50},
{1017355897187158018ull,50}, {1608162516911136685ull,50}, {1870743236788460537ull,50}, {3216325033822273370ull,50}, {3741486473576921074ull,50}, {5218358630549395833ull,50}, {6432650067644546740ull,50}, {9222425824003640759ull,50},
{9550362939175351757ull,50}, {643265006764454674ull,51}, {715503583198213115ull,51}, {978084303075536967ull,51}, {1286530013528909348ull,51}, {2264614316604446315ull,51}, {2573060027057818696ull,51}, {4837674343662265011ull,51},
{5146120054115637392ull,51}, {6977302912117533061ull,51}, {9983794397777902403ull,51}, {452922863320889263ull,52}, {641888570536580415ull,52}, {905845726641778526ull,52}, {1214291437095150907ull,52}, {1811691453283557052ull,52},
{2120137163736929433ull,52}, {2837017183163016807ull,52}, {5026640050877956163ull,52}, {5674034366326033614ull,52}, {9266914378351815029ull,52}, {579604594449136437ull,53}, {1094811433857469678ull,53}, {1538836586308724087ull,53},
{1606626307307665101ull,53}, {2426886891211232905ull,53}, {3864038896021545471ull,53}, {5504560063828681079ull,53}, {7728077792043090942ull,53}, {9165229796853403508ull,53}, {9707547564844931620ull,53}, {485377378242246581ull,54},
{718576002405156283ull,54}, {970754756484493162ull,54}, {1621541037890708431ull,54}, {2961073860535993323ull,54}, {3329851926696785053ull,54}, {4902583373504979647ull,54}, {5922147721071986646ull,54}, {7310490134799785375ull,54},
{9805166747009959294ull,54}, {405655872776870903ull,55}, {687664088022294442ull,55}, {811311745553741806ull,55}, {1388342413727798729ull,55}, {1462098026959957075ull,55}, {1757120479888590459ull,55}, {2924196053919914150ull,55},
{4533805307344187917ull,55}, {7458001361264102067ull,55}, {9067610614688375834ull,55}, {584839210783982830ull,56}, {1024770042640290937ull,56}, {1169678421567965660ull,56}, {2049540085280581874ull,56}, {2339356843135931320ull,56},
{3948966096560205087ull,56}, {4678713686271862640ull,56}, {7897932193120410174ull,56}, {9357427372543725280ull,56}, {9657655520545642602ull,56}, {467871368627186264ull,57}, {879861663712616214ull,57}, {935742737254372528ull,57},
{1609609253424273767ull,57}, {1871485474508745056ull,57}, {2545351990678646295ull,57}, {3742970949017490112ull,57}, {5090703981357292590ull,57}, {7485941898034980224ull,57}, {9807769594546601263ull,57}, {509070398135729259ull,58},
{523752442168942578ull,58}, {1018140796271458518ull,58}, {1362415076373015797ull,58}, {2036281592542917036ull,58}, {2724830152746031594ull,58}, {4072563185085834072ull,58}, {5449660305492063188ull,58}, {6453119057730308387ull,58},
{9207313298542766619ull,58}, {688548560203114558ull,59}, {1003458752238245199ull,59}, {1164659734732009421ull,59}, {2219354890150710093ull,59}, {2329319469464018842ull,59}, {4438709780301420186ull,59}, {7405341406788098113ull,59},
{7830216178136537503ull,59}, {9317277877856075368ull,59}, {9939606488973938847ull,59}, {474854021435681132ull,60}, {884745246879324916ull,60}, {977211974101410597ull,60}, {1769490493758649832ull,60}, {1954423948202821194ull,60},
{3596452010556939209ull,60}, {4021326781905378599ull,60}, {7192904021113878418ull,60}, {8042653563810757198ull,60}, {9854631534704250969ull,60}, {424874771348439390ull,61}, {583330475279887237ull,61}, {1008205246628326627ull,61},
{1166660950559774474ull,61}, {1834966380109349589ull,61}, {2514766014266852613ull,61}, {3171577239208499819ull,61}, {5527887549543904585ull,61}, {7204398225721806327ull,61}, {8201109267742205045ull,61}, {1032999864649859451ull,62},
{1105577509908780917ull,62}, {1640221853548441009ull,62}, {2211155019817561834ull,62}, {3280443707096882018ull,62}, {3851376873366002843ull,62}, {6560887414193764036ull,62}, {7131820580462884861ull,62}, {9696175830772803122ull,62},
{9715551822377304928ull,62}, {487715190279315427ull,63}, {882524408766574553ull,63}, {975430380558630854ull,63}, {1765048817533149106ull,63}, {1950860761117261708ull,63}, {3530097635066298212ull,63}, {3996532163883845775ull,63},
{7060195270132596424ull,63}, {7993064327767691550ull,63}, {9914861101478200549ull,63}, {397922548865253064ull,64}, {675431803720694087ull,64}, {799306432776769155ull,64}, {1350863607441388174ull,64}, {1598612865553538310ull,64},
{2424217960027335325ull,64}, {3197225731107076620ull,64}, {5667118344435941611ull,64}, {6394451462214153240ull,64}, {9960535754779730215ull,64}, {639445146221415324ull,65}, {1169963391528412055ull,65}, {1278890292442830648ull,65},
{2357504377368183371ull,65}, {2557780584885661296ull,65}, {4732586349047726003ull,65}, {5828778028284437987ull,65}, {9465172698095452006ull,65}, {9728836612765840921ull,65}, {9949880830560897008ull,65}, {508040598114860407ull,66},
{953548307534088905ull,66}, {1016081196229720814ull,66}, {1907096615068177810ull,66}, {2032162392459441628ull,66}, {3814193230136355620ull,66}, {6559572481108912643ull,66}, {6844859224514158801ull,66}, {8128649569837766512ull,66},
{9768037035812057425ull,66}, {492018501513462173ull,67}, {762838646027271124ull,67}, {1254857147540733297ull,67}, {1540143890945979455ull,67}, {1953607407162411485ull,67}, {3080287781891958910ull,67}, {3351107926405767861ull,67},
{6160575563783917820ull,67}, {6702215852811535722ull,67}, {9511683490189685681ull,67}, {781442962864964594ull,68}, {1232115112756783564ull,68}, {1457451187702693049ull,68}, {1562885925729929188ull,68}, {2914902375405386098ull,68},
{4132550889270732455ull,68}, {5829804750810772196ull,68}, {9271880816352338989ull,68}, {9972653693185766168ull,68}, {9999625929438730445ull,68}, {540806579870182764ull,69}, {826510177854146491ull,69}, {1367316757724329255ull,69},
{1653020355708292982ull,69}, {2734633515448658510ull,69}, {3306040711416585964ull,69}, {5033895189054370395ull,69}, {6612081422833171928ull,69}, {9197046694422847540ull,69}, {9632418536265794165ull,69}, {459852334721142377ull,70},
{546926703089731702ull,70}, {919704669442284754ull,70}, {1006779037810874079ull,70}, {1839409338884569508ull,70}, {1926483707253158833ull,70}, {3765893046137728341ull,70}, {3852967414506317666ull,70}, {7618860460644046007ull,70},
{7705934829012635332ull,70}, {320034996656445752ull,71}, {585538434376883228ull,71}, {640069993312891504ull,71}, {1171076868753766456ull,71}, {1280139986625783008ull,71}, {2342153737507532912ull,71}, {2560279973251566016ull,71},
{4666892601341347959ull,71}, {5103145072829414167ull,71}, {9316370329008978053ull,71}, {511703742792265370ull,72}, {512290829222345092ull,72}, {1019924510849787167ull,72}, {1021098683709946611ull,72}, {2037540219824990205ull,72},
{2039849021699574334ull,72}, {4075080439649980410ull,72}, {7936525247620443423ull,72}, {8150160879299960820ull,72}, {8166401580113519241ull,72}, {407508043964998041ull,73}, {409362994233812296ull,73}, {815016087929996082ull,73},
{1590091429311883543ull,73}, {1630032175859992164ull,73}, {3087770565251619933ull,73}, {3260064351719984328ull,73}, {6306039220154681385ull,73}, {6520128703439968656ull,73}, {9956196742165945889ull,73}, {348297473474357300ull,74},
{634272391777093137ull,74}, {696594946948714600ull,74}, {1261207844030936277ull,74}, {2347895961270931053ull,74}, {2459351152782725389ull,74}, {4695791922541862106ull,74}, {4918702305565450778ull,74}, {7322325862592278999ull,74},
{9837404611130901556ull,74}, {805412154694219218ull,75}, {1028322537717807890ull,75}, {1375301019309020331ull,75}, {2056645075435615780ull,75}, {2750602038618040662ull,75}, {3431946094744636111ull,75}, {6182548133362676773ull,75},
{6863892189489272222ull,75}, {8436877777710222359ull,75}, {9639720042218971750ull,75}, {423941922142952589ull,76}, {822658030174246312ull,76}, {963972004221897175ull,76}, {1645316060348492624ull,76}, {2609288064570389799ull,76},
{3290632120696985248ull,76}, {4160394808887115181ull,76}, {5218576129140779598ull,76}, {7711776033775177400ull,76}, {9378970938027894779ull,76}, {385588801688758870ull,77}, {582758971313983256ull,77}, {681344056126595449ull,77},
{1255351489878888803ull,77}, {1452521659504113189ull,77}, {2510702979757777606ull,77}, {2994876866259148669ull,77}, {4931572412264632921ull,77}, {5899920185267375047ull,77}, {5989753732518297338ull,77}, {616942082702014192ull,78},
{968347773002742126ull,78}, {1144050618153106093ull,78}, {1233884165404028384ull,78}, {2288101236306212186ull,78}, {2377934783557134477ull,78}, {4755869567114268954ull,78}, {6251325875568102981ull,78}, {9152404945224848744ull,78},
{9511739134228537908ull,78}, {439653537811057979ull,79}, {792644927852378159ull,79}, {879307075622115958ull,79}, {1585289855704756318ull,79}, {2201439088536474387ull,79}, {3170579711409512636ull,79}, {4402878177072948774ull,79},
{6341159422819025272ull,79}, {7310300045692063521ull,79}, {8805756354145897548ull,79}, {423589668049584216ull,80}, {545550954823454033ull,80}, {969140622873038249ull,80}, {1091101909646908066ull,80}, {1938281245746076498ull,80},
{2060242532519946315ull,80}, {3876562491492152996ull,80}, {5372018799945987023ull,80}, {6745513821625951233ull,80}, {9248581291438140019ull,80}, {824097013007978526ull,81}, {976834730570101551ull,81}, {1251533734906094393ull,81},
{1648194026015957052ull,81}, {3296388052031914104ull,81}, {3998523778266022813ull,81}, {5097319795609994181ull,81}, {7997047556532045626ull,81}, {8753869526067802661ull,81}, {9921085023263138535ull,81}, {518850465159561079ull,82},
{641040639209259499ull,82}, {1282081278418518998ull,82}, {1617646482503532447ull,82}, {1984217004652627707ull,82}, {3235292965007064894ull,82}, {3968434009305255414ull,82}, {6470585930014129788ull,82}, {7356922466426100539ull,82},
{8881552994737387553ull,82}, {531069482564530921ull,83}, {628821621804289657ull,83}, {1062138965129061842ull,83}, {1257643243608579314ull,83}, {1935340935032748339ull,83}, {2704223482442533973ull,83}, {3290736317881086389ull,83},
{4828501412700657657ull,83}, {6001527083577762489ull,83}, {9657002825401315314ull,83}, {617732951229485358ull,84}, {1046528907233595371ull,84}, {1664261858463080729ull,84}, {1815411454643381005ull,84}, {2748578164741751169ull,84},
{4210768461471172299ull,84}, {5219509969659692601ull,84}, {8421536922942344598ull,84}, {9229823169876982994ull,84}, {9883727219671765728ull,84}, {721234015349994239ull,85}, {726164581857352402ull,85}, {1452329163714704804ull,85},
{1739836656553230867ull,85}, {2032274715899115093ull,85}, {3479673313106461734ull,85}, {4064549431798230186ull,85}, {6959346626212923468ull,85}, {8129098863596460372ull,85}, {8406745223420270109ull,85}, {410399396385709549ull,86},
{636460937450643869ull,86}, {820798792771419098ull,86}, {1272921874901287738ull,86}, {1570290500754530127ull,86}, {2545843749802575476ull,86}, {4814041139781341215ull,86}, {5511948029005576827ull,86}, {5860901473617694633ull,86},
{9628082279562682430ull,86}, {962808227956268243ull,87}, {1046860333836353418ull,87}, {1925616455912536486ull,87}, {2009668561792621661ull,87}, {2707575451016857273ull,87}, {3851232911825072972ull,87}, {5415150902033714546ull,87},
{9014227496218531993ull,87}, {9485468109986066292ull,87}, {9518540131499043043ull,87}, {487502214104494015ull,88}, {891501143167960174ull,88}, {1278140830216351979ull,88}, {1345382514920420119ull,88}, {2556281660432703958ull,88},
{2690765029840840238ull,88}, {4069768387113294427ull,88}, {6424324993433793965ull,88}, {8139536774226588854ull,88}, {8913364969162429783ull,88}, {390001771283595212ull,89}, {733483184113400045ull,89}, {1284864998686758793ull,89},
{1338658346450013305ull,89}, {2569729997373517586ull,89}, {2677316692900026610ull,89}, {3935285017705158147ull,89}, {5139459994747035172ull,89}, {6451221667315421221ull,89}, {7870570035410316294ull,89}, {614918290698617191ull,90},
{1070926677160010644ull,90}, {1204174977041877025ull,90}, {2141853354320021288ull,90}, {2382688349728396693ull,90}, {3346028331361898313ull,90}, {4765376699456793386ull,90}, {6692056662723796626ull,90}, {9530753398913586772ull,90},
{9633399816335016200ull,90}, {481669990816750810ull,91}, {841344379114794101ull,91}, {963339981633501620ull,91}, {1515682366258245235ull,91}, {2864358340545147503ull,91}, {3635030325851948799ull,91}, {5728716681090295006ull,91},
{7270060651703897598ull,91}, {8978411014288843157ull,91}, {9582076607624301486ull,91}, {385335992653400648ull,92}, {606272946503298094ull,92}, {1212545893006596188ull,92}, {1266476454885150667ull,92}, {1929287316434843005ull,92},
{2532952909770301334ull,92}, {3362770163291336639ull,92}, {5561710289118952039ull,92}, {6445458104518541823ull,92}, {9140202699924506594ull,92}, {715698482161110911ull,93}, {771714926573937202ull,93}, {1431396964322221822ull,93},
{1487413408735048113ull,93}, {2974826817470096226ull,93}, {3910419312213968677ull,93}, {4902028251370667419ull,93}, {8868464007997462387ull,93}, {9652694229777030461ull,93}, {9804056502741334838ull,93}, {639778519024280278ull,94},
{759677284677663219ull,94}, {1399455803701943497ull,94}, {1519354569355326438ull,94}, {2798911607403886994ull,94}, {2918810373057269935ull,94}, {5717721980461156929ull,94}, {5837620746114539870ull,94}, {7724537489257745490ull,94},
{9996658773081718566ull,94}, {583762074611453987ull,95}, {721347891933329229ull,95}, {1047625383569525033ull,95}, {1167524149222907974ull,95}, {2215149532792433007ull,95}, {2335048298445815948ull,95}, {4550197831238248955ull,95},
{4670096596891631896ull,95}, {9100395662476497910ull,95}, {9220294428129880851ull,95}, {910039566247649791ull,96}, {1029938331901032732ull,96}, {1820079132495299582ull,96}, {1939977898148682523ull,96}, {3640158264990599164ull,96},
{3760057030643982105ull,96}, {7280316529981198328ull,96}, {7400215295634581269ull,96}, {9863428233119237639ull,96}, {9884581199480461957ull,96}, {632112640475413480ull,97}, {752011406128796421ull,97}, {1384124046604209901ull,97},
{1504022812257592842ull,97}, {2888146858861802743ull,97}, {3008045624515185684ull,97}, {5776293717723605486ull,97}, {5896192483376988427ull,97}, {9409928220272504895ull,97}, {9649725751579270777ull,97}, {625588878033713725ull,98},
{755925663593816274ull,98}, {1131278990414044509ull,98}, {1251177756067427450ull,98}, {1881985644054500979ull,98}, {2882927848908442939ull,98}, {3763971288109001958ull,98}, {5765855697816885878ull,98}, {7527942576218003916ull,98},
{8148312444298357837ull,98}, {480666557258982235ull,99}, {500471102426970980ull,99}, {1000942204853941960ull,99}, {1181326100656741607ull,99}, {1381514541627529999ull,99}, {2182268305510683567ull,99}, {2763029083255059998ull,99},
{4364536611021367134ull,99}, {5526058166510119996ull,99}, {9710210881728687483ull,99}, {572838959677180933ull,100}, {996981295820344211ull,100}, {1145677919354361866ull,100}, {1993962591640688422ull,100}, {2158502851309097073ull,100},
{3987925183281376844ull,100}, {6146428034590473917ull,100}, {6931338162339236489ull,100}, {8893613481711142919ull,100}, {9153215558185897546ull,100}, {483620985556770340ull,101}, {588682595811571929ull,101}, {1072303581368342269ull,101},
{1177365191623143858ull,101}, {2144607162736684538ull,101}, {3034578900740248699ull,101}, {4289214325473369076ull,101}, {5179186063476933237ull,101}, {8578428650946738152ull,101}, {9468400388950302313ull,101}, {386896788445416272ull,102},
{597020008955019450ull,102}, {679848517493960983ull,102}, {1287985077306910461ull,102}, {2249668772991486127ull,102}, {2437558891785229249ull,102}, {3421475689185664971ull,102}, {4875117783570458498ull,102}, {5765089521574022659ull,102},
{9750235567140916996ull,102}, {759451185354630243ull,103}, {824711461679097202ull,103}, {1518902370709260486ull,103}, {1584162647033727445ull,103}, {2090463437270147607ull,103}, {4115666598215828255ull,103}, {4180926874540295214ull,103},
{8231333196431656510ull,103}, {8361853749080590428ull,103}, {9178674500580029875ull,103}, {633665058813490978ull,104}, {823133319643165651ull,104}, {1267330117626981956ull,104}, {1646266639286331302ull,104}, {2534660235253963912ull,104},
{3292533278572662604ull,104}, {4370395135369969887ull,104}, {6585066557145325208ull,104}, {8041864935601981837ull,104}, {8740790270739939774ull,104}, {355357438387053044ull,105}, {367146980023201195ull,105}, {710714876774106088ull,105},
{734293960046402390ull,105}, {1468587920092804780ull,105}, {2167513255230762717ull,105}, {2937175840185609560ull,105}, {3636101175323567497ull,105}, {5874351680371219120ull,105}, {9463294689150194013ull,105}, {587435168037121912ull,106},
{969063835884222591ull,106}, {1174870336074243824ull,106}, {2096776005413873811ull,106}, {2349740672148487648ull,106}, {4223536343360689409ull,106}, {6573277015509177057ull,106}, {8447072686721378818ull,106}, {8734385021479294289ull,106},
{9398962688593950592ull,106}, {654329268297623527ull,107}, {723785468262383336ull,107}, {1060818069269149605ull,107}, {1447570936524766672ull,107}, {2508389005793916277ull,107}, {3004069940446111175ull,107}, {4134344209680020589ull,107},
{6008139880892222350ull,107}, {7386254617452229213ull,107}, {9368978356061008805ull,107}, {458106574200152123ull,108}, {600813988089222235ull,108}, {739726388018741853ull,108}, {1201627976178444470ull,108}, {2403255952356888940ull,108},
{2579742712738451333ull,108}, {4806511904713777880ull,108}, {4982998665095340273ull,108}, {9613023809427555760ull,108}, {9789510569809118153ull,108}, {627078462491305961ull,109}, {961302380942755576ull,109}, {1922604761885511152ull,109},
{2099091522267073545ull,109}, {3845209523771022304ull,109}, {4021696284152584697ull,109}, {7690419047542044608ull,109}, {8043392568305169394ull,109}, {8925826370212981359ull,109}, {9733261762874092640ull,109}, {663149848525267025ull,110},
{839636608906829418ull,110}, {1326299697050534050ull,110}, {1679273217813658836ull,110}, {2652599394101068100ull,110}, {3358546435627317672ull,110}, {4861332893059414115ull,110}, {5305198788202136200ull,110}, {7866905807923607001ull,110},
{8754637598209051171ull,110}, {441746699791669203ull,111}, {530519878820213620ull,111}, {972266578611882823ull,111}, {1061039757640427240ull,111}, {1944533157223765646ull,111}, {2122079515280854480ull,111}, {3889066314447531292ull,111},
{4244159030561708960ull,111}, {6099919008756930189ull,111}, {7778132628895062584ull,111}, {829381814025790603ull,112}, {848831806112341792ull,112}, {1323120904023954727ull,112}, {2033306336252310063ull,112}, {2310599084020282975ull,112},
{4402255396532246605ull,112}, {5034640860414397185ull,112}, {8804510793064493210ull,112}, {9140153517092119689ull,112}, {9655839028454963135ull,112}, {462119816804056595ull,113}, {880451079306449321ull,113}, {1006928172082879437ull,113},
{1760902158612898642ull,113}, {2096544882640525121ull,113}, {3521804317225797284ull,113}, {4193089765281050242ull,113}, {7043608634451594568ull,113}, {8386179530562100484ull,113}, {8551556607511632978ull,113}, {452384391918011523ull,114},
{671285448055252958ull,114}, {822080245361256799ull,114}, {904768783836023046ull,114}, {1644160490722513598ull,114}, {2330028218421295209ull,114}, {3974188709143808807ull,114}, {5015170010642307041ull,114}, {6221528389090337769ull,114},
{8303490992087334237ull,114}, {860988572608574759ull,115}, {865860456588705086ull,115}, {1376607339377693549ull,115}, {2077090719016866141ull,115}, {2417588640876191783ull,115}, {4154181438033732282ull,115}, {4835177281752383566ull,115},
{8643988913946659879ull,115}, {9334728525625571817ull,115}, {9748304707186852364ull,115}, {479620220991134095ull,116}, {901859002366689781ull,116}, {959240441982268190ull,116}, {1803718004733379562ull,116}, {1851355676388697317ull,116},
{3607436009466759124ull,116}, {5190290855552100189ull,116}, {5324541270703778315ull,116}, {7818998887116069815ull,116}, {8087499717419426067ull,116}, {383696176792907276ull,117}, {681212077347848387ull,117}, {930657838989077537ull,117},
{1064908254140755663ull,117}, {1563799777423213963ull,117}, {2129816508281511326ull,117}, {3693616285704725289ull,117}, {4259633016563022652ull,117}, {7953249302267747941ull,117}, {8519266033126045304ull,117}, {631322925019602557ull,118},
{965129949484264003ull,118}, {1364243168110230643ull,118}, {1930259898968528006ull,118}, {2728486336220461286ull,118}, {3860519797937056012ull,118}, {5456972672440922572ull,118}, {7721039595874112024ull,118}, {9361059647945834395ull,118},
{9897972164171589854ull,118}, {566016730858297363ull,119}, {711145568744795885ull,119}, {1132033461716594726ull,119}, {1523888455560617299ull,119}, {2655921917277212025ull,119}, {3047776911121234598ull,119}, {3933084216880305273ull,119},
{5311843834554424050ull,119}, {7866168433760610546ull,119}, {9244928051434729323ull,119}, {531184383455442405ull,120}, {568916454995836708ull,120}, {1062368766910884810ull,120}, {1100100838451279113ull,120}, {2124737533821769620ull,120},
{2162469605362163923ull,120}, {4249475067643539240ull,120}, {5703698828398446623ull,120}, {7120190517612959703ull,120}, {8649878421448655692ull,120}, {849895013528707848ull,121}, {1170925422912004767ull,121}, {1454223760754907383ull,121},
{1699790027057415696ull,121}, {3154013787812323079ull,121}, {3399580054114831392ull,121}, {6553593841927154471ull,121}, {6799160108229662784ull,121}, {9669259955619192560ull,121}, {9802245609880408651ull,121}, {483462997780959628ull,122},
{729029264083467941ull,122}, {1212492261864427569ull,122}, {1458058528166935882ull,122}, {2916117056333871764ull,122}, {3478878964607648497ull,122}, {6394996020941520261ull,122}, {6957757929215296994ull,122}, {8011652370094090353ull,122},
{8574414278367867086ull,122}, {499322779879523049ull,123}, {681449917787777678ull,123}, {1053894440878793359ull,123}, {1307650954455808095ull,123}, {2052540000637839457ull,123}, {2670550790031363451ull,123}, {4105080001275678914ull,123},
{5341101580062726902ull,123}, {8265408883671105089ull,123}, {8320657764790852350ull,123}, {832065776479085235ull,124}, {1046120763564646476ull,124}, {1664131552958170470ull,124}, {2092241527129292952ull,124}, {2844904250625471197ull,124},
{4667841909549455647ull,124}, {5206449645960072651ull,124}, {5689808501250942394ull,124}, {9888172630296383904ull,124}, {9970908242962167214ull,124}, {546881297677195335ull,125}, {665652621183268188ull,125}, {1331305242366536376ull,125},
{1577121450645260413ull,125}, {2662610484733072752ull,125}, {3875144403593536275ull,125}, {5571037177744869541ull,125}, {7504472598908348513ull,125}, {8012652137998953249ull,125}, {9912993314096118897ull,125}, {483358855290869743ull,126},
{775028880718707255ull,126}, {966717710581739486ull,126}, {1550057761437414510ull,126}, {2179251629442203009ull,126}, {2854299314596104983ull,126}, {4358503258884406018ull,126}, {5954414837470934003ull,126}, {6629462522624835977ull,126},
{8717006517768812036ull,126}, {675047685153901974ull,127}, {1240046209149931608ull,127}, {1350095370307803948ull,127}, {2480092418299863216ull,127}, {2700190740615607896ull,127}, {4960184836599726432ull,127}, {5081199165513910195ull,127},
{9920369673199452864ull,127}, {9997523331088390935ull,127}, {9998925979970198786ull,127}, {667711074410043818ull,128}, {928200504176484167ull,128}, {1016239833102782039ull,128}, {1856401008352968334ull,128}, {2234276210021139179ull,128},
{3712802016705936668ull,128}, {4670348963857853459ull,128}, {5947078226727075847ull,128}, {9138901383900131817ull,128}, {9340697927715706918ull,128}, {487214550767342856ull,129}, {789514712101879532ull,129}, {974429101534685712ull,129},
{1444761497919259647ull,129}, {2419190599453945359ull,129}, {2889522995838519294ull,129}, {3695919862323167747ull,129}, {4838381198907890718ull,129}, {7391839724646335494ull,129}, {9676762397815781436ull,129}, {322400884838328991ull,130},
{618263907930818879ull,130}, {658465354938403509ull,130}, {1236527815861637758ull,130}, {1518727253692382119ull,130}, {1894993170800041267ull,130}, {3037454507384764238ull,130}, {3789986341600082534ull,130}, {6074909014769528476ull,130},
{8910566978338717613ull,130}, {688209519003182888ull,131}, {908503635163080166ull,131}, {1110300178978655267ull,131}, {1817007270326160332ull,131}, {2395069731249394581ull,131}, {3634014540652320664ull,131}, {6029084271901715245ull,131},
{7093559708012557281ull,131}, {8690272862178820335ull,131}, {9929217671581746418ull,131}, {548801695566712535ull,132}, {798356577083131527ull,132}, {1205816854380343049ull,132}, {1596713154166263054ull,132}, {1738054572435764067ull,132},
{2411633708760686098ull,132}, {3476109144871528134ull,132}, {4823267417521372196ull,132}, {6952218289743056268ull,132}, {9646534835042744392ull,132}, {390896299785920005ull,133}, {595399876367738030ull,133}, {673579136324922031ull,133},
{986296176153658035ull,133}, {1972592352307316070ull,133}, {2177095928889134095ull,133}, {4149688281196450165ull,133}, {4354191857778268190ull,133}, {6844004826496138289ull,133}, {8299376562392900330ull,133}, {829937656239290033ull,134},
{870838371555653638ull,134}, {1659875312478580066ull,134}, {1741676743111307276ull,134}, {3319750624957160132ull,134}, {3483353486222614552ull,134}, {5020526652752103803ull,134}, {6639501249914320264ull,134}, {8749284430872899985ull,134},
{9386641860442389926ull,134}, {441727725416726934ull,135}, {817320576961489803ull,135}, {883455450833453868ull,135}, {1651695169415307345ull,135}, {1749856886174579997ull,135}, {3303390338830614690ull,135}, {3499713772349159994ull,135},
{6606780677661229380ull,135}, {6999427544698319988ull,135}, {9844729871985662302ull,135}, {428500750642334121ull,136}, {660678067766122938ull,136}, {1089178818408457059ull,136}, {1321356135532245876ull,136}, {2410534953940702935ull,136},
{2642712271064491752ull,136}, {5053247225005194687ull,136}, {5285424542128983504ull,136}, {5458427337450895811ull,136}, {9874317132886600557ull,136}, {708366855731741753ull,137}, {964213981576281174ull,137}, {1184556394339694689ull,137},
{1928427963152562348ull,137}, {2369112788679389378ull,137}, {4089033243428913513ull,137}, {8178066486857827026ull,137}, {8410243803981615843ull,137}, {9012096520469979878ull,137}, {9897986941607351161ull,137}, {520258021160635639ull,138},
{632064794986751649ull,138}, {1040516042321271278ull,138}, {1496306907097292115ull,138}, {2072468315170985759ull,138}, {2536822949418563393ull,138}, {3689145765565950681ull,138}, {5529436763613147623ull,138}, {7834082395907922199ull,138},
{8289873260683943036ull,138}, {509077343778024038ull,139}, {598522762838916846ull,139}, {741254660901812855ull,139}, {1197045525677833692ull,139}, {1384500133271176105ull,139}, {2394091051355667384ull,139}, {3224791131318373047ull,139},
{4332391237935313931ull,139}, {6449582262636746094ull,139}, {8664782475870627862ull,139}, {1048794593497471121ull,140}, {1087998268910450963ull,140}, {1563390971392961721ull,140}, {2175996537820901926ull,140}, {2670991078009902605ull,140},
{4351993075641803852ull,140}, {5954587722447745415ull,140}, {8091380584855667499ull,140}, {8860800852935527072ull,140}, {9159777016059628541ull,140}, {534198215601980521ull,141}, {656719328887568562ull,141}, {1068396431203961042ull,141},
{1190917544489549083ull,141}, {2136792862407922084ull,141}, {2381835088979098166ull,141}, {4273585724815844168ull,141}, {7022984153651706457ull,141}, {8547171449631688336ull,141}, {9527340355916392664ull,141}, {536162250420639927ull,142},
{574383908424290066ull,142}, {1110546158844929993ull,142}, {1148767816848580132ull,142}, {1769229522551157961ull,142}, {2749398428835862289ull,142}, {3086596249963613897ull,142}, {5046934062533022553ull,142}, {5721329704788525769ull,142},
{6027102968817726881ull,142}, {646537156214622962ull,143}, {889796347256963923ull,143}, {1202701753401505519ull,143}, {1689220135486187441ull,143}, {2315030947775270633ull,143}, {3378440270972374882ull,143}, {4539689336522800861ull,143},
{6756880541944749764ull,143}, {9079378673045601722ull,143}, {9085505691530219683ull,143}, {450369358473585760ull,144}, {453356231803818290ull,144}, {900738716947171520ull,144}, {906712463607636580ull,144}, {1801477433894343040ull,144},
{1813424927215273160ull,144}, {3602954867788686080ull,144}, {3632976872915164281ull,144}, {7235931740703850361ull,144}, {7265953745830328562ull,144}, {360295486778868608ull,145}, {362684985443054632ull,145}, {720590973557737216ull,145},
{741054984027471321ull,145}, {1461645957585208537ull,145}, {1482109968054942642ull,145}, {2943755925640151179ull,145}, {2964219936109885284ull,145}, {5928439872219770568ull,145}, {7643128995082652239ull,145}, {646589622905784095ull,146},
{650682424999730916ull,146}, {1301364849999461832ull,146}, {1586464236794284307ull,146}, {2602729699998923664ull,146}, {3466213464571284731ull,146}, {5205459399997847328ull,146}, {8382480675680362763ull,146}, {9547435035423333589ull,146},
{9824348818030262422ull,146}, {517271698324627276ull,147}, {867576566666307888ull,147}, {1213788632914041679ull,147}, {1735153133332615776ull,147}, {2427577265828083358ull,147}, {3470306266665231552ull,147}, {5262479277356811823ull,147},
{6940612533330463104ull,147}, {7576016788466966191ull,147}, {7983341534167611298ull,147}, {566980402305745693ull,148}, {612596304192917289ull,148}, {1133960804611491386ull,148}, {1225192608385834578ull,148}, {1860596863522337665ull,148},
{2857709962472314263ull,148}, {2948941766246657455ull,148}, {5715419924944628526ull,148}, {5897883532493314910ull,148}, {9843938397689948963ull,148}, {589788353249331491ull,149}, {1151563491109580173ull,149}, {1179576706498662982ull,149},
{2303126982219160346ull,149}, {2359153412997325964ull,149}, {4606253964438320692ull,149}, {8664361691191285981ull,149}, {8973262475510493131ull,149}, {9436613651989303856ull,149}, {9675859105355452109ull,149}, {482733802739379816ull,150},
{938209805128973074ull,150}, {957592431389542165ull,150}, {1876419610257946148ull,150}, {1915184862779084330ull,150}, {3760714394605109763ull,150}, {4440296120107365493ull,150}, {4687416747562731213ull,150}, {8880592240214730986ull,150},
{9374833495125462426ull,150}, {383036972555816866ull,151}, {646994488667501691ull,151}, {766073945111633732ull,151}, {1425424465151903709ull,151}, {1532147890223267464ull,151}, {2932860292629634601ull,151}, {4366159931870755777ull,151},
{4563856433835048353ull,151}, {8732319863741511554ull,151}, {9127712867670096706ull,151}, {794153385588434125ull,152}, {991849887552726701ull,152}, {1588306771176868250ull,152}, {1983699775105453402ull,152}, {3074397913640326391ull,152},
{4069615178924316913ull,152}, {6251011455994062891ull,152}, {8139230357848633826ull,152}, {9747741395413085002ull,152}, {9844416565439462948ull,152}, {635322708470747300ull,153}, {773036784299499339ull,153}, {1270645416941494600ull,153},
{1923717348969912865ull,153}, {2541290833882989200ull,153}, {3194362765911407465ull,153}, {4980366039052568291ull,153}, {6490941160536225039ull,153}, {7757306864845103958ull,153}, {9960732078105136582ull,153}, {508258166776597840ull,154},
{638872553182281493ull,154}, {1016516333553195680ull,154}, {1277745106364562986ull,154}, {2033032667106391360ull,154}, {2555490212729125972ull,154}, {3441392159876637999ull,154}, {5110980425458251944ull,154}, {6258111145417131277ull,154},
{6882784319753275998ull,154}, {856375198739057401ull,155}, {1147130719958879333ull,155}, {1669588265581613945ull,155}, {2294261439917758666ull,155}, {3296014399266727033ull,155}, {4588522879835517332ull,155}, {7884537279102244365ull,155},
{9177045759671034664ull,155}, {9908446525585313822ull,155}, {9910802001911549233ull,155}, {667835306232645578ull,156}, {909072149587803295ull,156}, {1576907455820448873ull,156}, {1818144299175606590ull,156}, {3153814911640897746ull,156},
{3395051754996055463ull,156}, {6307629823281795492ull,156}, {6548866666636953209ull,156}, {8168936254353902939ull,156}, {8651409941064218373ull,156}, {486020876315084919ull,157}, {727257719670242636ull,157}, {1213278595985327555ull,157},
{1454515439340485272ull,157}, {2019766200239032935ull,157}, {2426557191970655110ull,157}, {4446323392209688045ull,157}, {4853114383941310220ull,157}, {9299437776150998265ull,157}, {9706228767882620440ull,157}, {403953240047806587ull,158},
{485311438394131022ull,158}, {889264678441937609ull,158}, {970622876788262044ull,158}, {1859887555230199653ull,158}, {1941245753576524088ull,158}, {3719775110460399306ull,158}, {3801133308806723741ull,158}, {7439550220920798612ull,158},
{7520908419267123047ull,158}, {510851203548471314ull,159}, {1002411285693163177ull,159}, {1021702407096942628ull,159}, {1988550931717061467ull,159}, {2027133174524620369ull,159}, {3960830223764858047ull,159}, {4084181556985486637ull,159},
{7921660447529716094ull,159}, {8168363113970973274ull,159}, {9630182612802529229ull,159}, {415189618706483006ull,160}, {805183356488383519ull,160}, {829853623132509237ull,160}, {1610366712976767038ull,160}, {1659707246265018474ull,160},
{3123629202218401529ull,160}, {5889807945993432319ull,160}, {6019981063347551415ull,160}, {6735933208795206443ull,160}, {9957192249029197294ull,160}, {357976072723827514ull,161}, {585673905237444577ull,161}, {1073823095315391187ull,161},
{1203996212669510283ull,161}, {2147646190630782374ull,161}, {2407992425339020566ull,161}, {3286555844623233109ull,161}, {4815984850678041132ull,161}, {8102540695301274241ull,161}, {9631969701356082264ull,161}, {553172675041351345ull,162},
{976256331013456678ull,162}, {1106345350082702690ull,162}, {2050121475471284407ull,162}, {3351684452442729199ull,162}, {3546902079331471301ull,162}, {5173939898830650375ull,162}, {7093804158662942602ull,162}, {8818450791606492727ull,162},
{9599321299161461135ull,162}, {592249839733048999ull,163}, {787467466621791101ull,163}, {1034787979766130075ull,163}, {1574934933243582202ull,163}, {2069575959532260150ull,163}, {3299581566187132327ull,163}, {3989440219364552377ull,163},
{4139151919064520300ull,163}, {8128592138429072677ull,163}, {8278303838129040600ull,163}, {413915191906452030ull,164}, {540146953477452127ull,164}, {827830383812904060ull,164}, {1230005606654872177ull,164}, {1655660767625808120ull,164},
{2609722913009712277ull,164}, {3161609835551648317ull,164}, {3311321535251616240ull,164}, {6323219671103296634ull,164}, {8680479060971008717ull,164}, {662264307050323248ull,165}, {954062145383904157ull,165}, {1324528614100646496ull,165},
{1616326452434227405ull,165}, {2649057228201292992ull,165}, {2940855066534873901ull,165}, {5298114456402585984ull,165}, {5589912294736166893ull,165}, {8784437394272847018ull,165}, {9720835397804429241ull,165}, {591221237733516755ull,166},
{646530580973690962ull,166}, {1001263323613801015ull,166}, {1293061161947381924ull,166}, {2002526647227602030ull,166}, {2294324485561182939ull,166}, {4588648971122365878ull,166}, {5826400789829573595ull,166}, {7355950446870362221ull,166},
{9831454084284777655ull,166}, {400505329445520406ull,167}, {619831507037808317ull,167}, {1020336836483328723ull,167}, {1165280157965914719ull,167}, {2330560315931829438ull,167}, {2694829815006703345ull,167}, {4661120631863658876ull,167},
{5025390130938532783ull,167}, {5464042486123108605ull,167}, {9322241263727317752ull,167}, {713662426927807431ull,168}, {1077931926002681338ull,168}, {1427324853855614862ull,168}, {2155863852005362676ull,168}, {2854649707711229724ull,168},
{4311727704010725352ull,168}, {5709299415422459448ull,168}, {8623455408021450704ull,168}, {8742467977796973768ull,168}, {8957971764652443845ull,168}, {637833212868444573ull,169}, {728538998149747814ull,169}, {1275666425736889146ull,169},
{1366372211018192387ull,169}, {1791594352930488769ull,169}, {2732744422036384774ull,169}, {3583188705860977538ull,169}, {4524338774966873543ull,169}, {7166377411721955076ull,169}, {8107527480827851081ull,169}, {467165812923661643ull,170},
{662214270003413563ull,170}, {746101612026144085ull,170}, {1324428540006827126ull,170}, {1492203224052288170ull,170}, {2460627066192475051ull,170}, {2796176434283397139ull,170}, {4921254132384950102ull,170}, {5835130428456555231ull,170},
{9842508264769900204ull,170}, {596881289620915268ull,171}, {1097188834769697541ull,171}, {1317610096748254407ull,171}, {2194377669539395082ull,171}, {2635220193496508814ull,171}, {4264907821572366293ull,171}, {6147207959784158303ull,171},
{7653048070353591911ull,171}, {9282735698429449390ull,171}, {9664113201194894581ull,171}, {551813542200586537ull,172}, {778673053810618936ull,172}, {928273569842944939ull,172}, {1732699622179466007ull,172}, {1856547139685889878ull,172},
{3465399244358932014ull,172}, {3713094279371779756ull,172}, {6900128015068875107ull,172}, {7426188558743559512ull,172}, {9911808236207742323ull,172}, {387977846659430250ull,173}, {699213943601584187ull,173}, {736484761144558167ull,173},
{1398427887203168374ull,173}, {1472969522289116334ull,173}, {2836326706580639081ull,173}, {3327316547343677859ull,173}, {3607882170636842875ull,173}, {6654633094687355718ull,173}, {7215764341273685750ull,173}, {721576434127368575ull,174},
{1022304433314989626ull,174}, {1443152868254737150ull,174}, {1743880867442358201ull,174}, {2886305736509474300ull,174}, {4349620980658667485ull,174}, {5772611473018948600ull,174}, {8959645208716043951ull,174}, {9139398952536928792ull,174},
{9561101207091286053ull,174}, {577261147301894860ull,175}, {869924196131733497ull,175}, {1154522294603789720ull,175}, {1447185343433628357ull,175}, {2309044589207579440ull,175}, {2601707638037418077ull,175}, {4910752227244997517ull,175},
{5203415276074836154ull,175}, {7316576220745965925ull,175}, {9821504454489995034ull,175}, {416180228648000023ull,176}, {461808917841515888ull,176}, {923617835683031776ull,176}, {1216280884512870413ull,176}, {1847235671366063552ull,176},
{2432561769025740826ull,176}, {3694471342732127104ull,176}, {4865123538051481652ull,176}, {7005022258247383841ull,176}, {7388942685464254208ull,176}, {658332000369302658ull,177}, {896240622166922257ull,177}, {1554572622536224915ull,177},
{1792481244333844514ull,177}, {3109145245072449830ull,177}, {4590711964899049361ull,177}, {6456199111942519259ull,177}, {9181423929798098722ull,177}, {9365217562554836384ull,177}, {9711356162434219857ull,177}, {515842602487265739ull,178},
{621829049014489966ull,178}, {1243658098028979932ull,178}, {1481566719826599531ull,178}, {2037434681205891811ull,178}, {3413014954505267115ull,178}, {4074869362411783622ull,178}, {6800094180267363085ull,178}, {8149738724823567244ull,178},
{9975200512975010601ull,178}, {677415845152419194ull,179}, {682602990901053423ull,179}, {1354831690304838388ull,179}, {1360018836053472617ull,179}, {2714850526358311005ull,179}, {2720037672106945234ull,179}, {5434888198465256239ull,179},
{5440075344213890468ull,179}, {7244788549370796909ull,179}, {7255162840868065367ull,179}, {1085940210543324402ull,180}, {1091127356291958631ull,180}, {1453107426473066765ull,180}, {2171880421086648804ull,180}, {2906214852946133530ull,180},
{3624987847559715569ull,180}, {6531202700505849099ull,180}, {7249975695119431138ull,180}, {9593031925911009499ull,180}, {9938330426622927050ull,180}, {581242970589226706ull,181}, {856303018637937372ull,181}, {1162485941178453412ull,181},
{1881258935792035451ull,181}, {2747936245927241281ull,181}, {3339553508013736445ull,181}, {5072908128284148105ull,181}, {6679107016027472890ull,181}, {7779347208222315554ull,181}, {9722851892997961753ull,181}, {667910701602747289ull,182},
{718772994613582039ull,182}, {1014581625656829621ull,182}, {1335821403205494578ull,182}, {2029163251313659242ull,182}, {2671642806410989156ull,182}, {4058326502627318484ull,182}, {5343285612821978312ull,182}, {7051209086586972597ull,182},
{8116653005254636968ull,182}, {642479555097329914ull,183}, {1024754084258996571ull,183}, {2049508168517993142ull,183}, {2350403028862324199ull,183}, {3033572418368321913ull,183}, {4700806057724648398ull,183}, {6067144836736643826ull,183},
{9401612115449296796ull,183}, {9806411316737868166ull,183}, {9865266313428299053ull,183}, {634341588215596354ull,184}, {699445323269464834ull,184}, {1000340183613795891ull,184}, {1398890646538929668ull,184}, {2000680367227591782ull,184},
{3733017741637786747ull,184}, {4399911197380317341ull,184}, {7067485020350439717ull,184}, {8002721468910367128ull,184}, {8799822394760634682ull,184}, {666893455742530594ull,185}, {718976443785625378ull,185}, {1039402424646116979ull,185},
{1333786911485061188ull,185}, {2373189336131178167ull,185}, {2667573822970122376ull,185}, {4746378672262356334ull,185}, {5040763159101300543ull,185}, {6426633058629456515ull,185}, {7015402032307344933ull,185}, {398550462925133777ull,186},
{592391661961813317ull,186}, {890398837084682425ull,186}, {1184783323923626634ull,186}, {1285326611725891303ull,186}, {2369566647847253268ull,186}, {2570653223451782606ull,186}, {4645835384460091665ull,186}, {5141306446903565212ull,186},
{9291670768920183330ull,186}, {712319069667745940ull,187}, {929167076892018333ull,187}, {1641486146559764273ull,187}, {1858334153784036666ull,187}, {3499820300343800939ull,187}, {3716668307568073332ull,187}, {7216488607911874271ull,187},
{7433336615136146664ull,187}, {8457072281746623327ull,187}, {9662321056889755896ull,187}, {569855255734196752ull,188}, {786703262958469145ull,188}, {1356558518692665897ull,188}, {1573406525916938290ull,188}, {2713117037385331794ull,188},
{3146813051833876580ull,188}, {5426234074770663588ull,188}, {6293626103667753160ull,188}, {7922503104931722989ull,188}, {9657287162725902133ull,188}, {608181199060733453ull,189}, {629362610366775316ull,189}, {803847794978963983ull,189},
{1258725220733550632ull,189}, {2062573015712514615ull,189}, {2517450441467101264ull,189}, {2929965044609604187ull,189}, {5034900882934202528ull,189}, {5859930089219208374ull,189}, {7964865927543806715ull,189}, {767943979223755497ull,190},
{825029206285005846ull,190}, {1592973185508761343ull,190}, {1650058412570011692ull,190}, {3185946371017522686ull,190}, {3243031598078773035ull,190}, {6371892742035045372ull,190}, {6428977969096295721ull,190}, {8262922797997971461ull,190},
{9946609358068823643ull,190}, {591521092554504258ull,191}, {648606319615754607ull,191}, {1240127412170258865ull,191}, {1297212639231509214ull,191}, {2537340051401768079ull,191}, {2594425278463018428ull,191}, {3402148477556107555ull,191},
{5188850556926036856ull,191}, {6804296955112215110ull,191}, {8705169488604645109ull,191}, {496050964868103546ull,192}, {553136191929353895ull,192}, {680429695511221511ull,192}, {1106272383858707790ull,192}, {1360859391022443022ull,192},
{2410046547819900463ull,192}, {2721718782044886044ull,192}, {3770905938842343485ull,192}, {5443437564089772088ull,192}, {6492624720887229529ull,192}, {623344468449971162ull,193}, {754181187768468697ull,193}, {1377525656218439859ull,193},
{1508362375536937394ull,193}, {3016724751073874788ull,193}, {3804238469234337159ull,193}, {6033449502147749576ull,193}, {6820963220308211947ull,193}, {8657664095266131759ull,193}, {9704357849814112039ull,193}, {444844845682891619ull,194},
{813681062024161878ull,194}, {944517781342659413ull,194}, {1049187156797457441ull,194}, {1889035562685318826ull,194}, {2098374313594914882ull,194}, {3778071125370637652ull,194}, {4984262345350292135ull,194}, {8762333470720929787ull,194},
{9968524690700584270ull,194}, {451574355805317817ull,195}, {660913106714913873ull,195}, {996852469070058427ull,195}, {1228122455970404953ull,195}, {1993704938140116854ull,195}, {2549948669400232699ull,195}, {3987409876280233708ull,195},
{4543653607540349553ull,195}, {7974819752560467416ull,195}, {8531063483820583261ull,195}, {573788720052716221ull,196}, {983693727475608145ull,196}, {1147577440105432442ull,196}, {1967387454951216290ull,196}, {2183906133958841715ull,196},
{3934774909902432580ull,196}, {4338701103828903591ull,196}, {7869549819804865160ull,196}, {8677402207657807182ull,196}, {9760778506089259033ull,196}, {436781226791768343ull,197}, {786954981980486516ull,197}, {1001238716268208521ull,197},
{1573909963960973032ull,197}, {2002477432536417042ull,197}, {3020143665237274229ull,197}, {4004954865072834084ull,197}, {6357606052797969299ull,197}, {7692591007822247327ull,197}, {9155252225531197190ull,197}, {350173755188718173ull,198},
{667492477512139014ull,198}, {915525222553119719ull,198}, {1334984955024278028ull,198}, {1831050445106239438ull,198}, {2250510177577397747ull,198}, {3140500147593583099ull,198}, {3662100890212478876ull,198}, {6281000295187166198ull,198},
{6802601037806061975ull,198}, {668956433577811607ull,199}, {691563773983400788ull,199}, {1360520207561212395ull,199}, {1383127547966801576ull,199}, {2721040415122424790ull,199}, {3287855838552498929ull,199}, {5442080830244849580ull,199},
{6008896253674923719ull,199}, {9364574113444190191ull,199}, {9750530813629550882ull,199}, {544208083024484958ull,200}, {875254400920293769ull,200}, {1088416166048969916ull,200}, {1750508801840587538ull,200}, {2176832332097939832ull,200},
{3501017603681175076ull,200}, {3596294816042718559ull,200}, {4353664664195879664ull,200}, {7949959480238598223ull,200}, {8707329328391759328ull,200}, {398225151622807925ull,201}, {662092635791617622ull,201}, {796450303245615850ull,201},
{1324185271583235244ull,201}, {1441426636860599479ull,201}, {2799844512797102709ull,201}, {2882853273721198958ull,201}, {5448215055963573197ull,201}, {5907484815594656619ull,201}, {9684638354882088626ull,201}, {637160242596492680ull,202},
{1029053423340461751ull,202}, {1363265726675689989ull,202}, {2058106846680923502ull,202}, {2726531453351379978ull,202}, {4330216391140406817ull,202}, {6450851965969257911ull,202}, {7662643723014315679ull,202}, {9124550392651083815ull,202},
{9836112324512720847ull,202}, {502505751114564033ull,203}, {709286005930493735ull,203}, {1005011502229128066ull,203}, {1618129823714287061ull,203}, {2623141325943415127ull,203}, {3022256949650014309ull,203}, {4234048706695072077ull,203},
{6044513899300028618ull,203}, {7455863468198385977ull,203}, {8468097413390144154ull,203}, {444805140447363189ull,204}, {721297099856930572ull,204}, {1166102240304293761ull,204}, {1411349568898357359ull,204}, {1810465192604956541ull,204},
{2822699137796714718ull,204}, {4633164330401671259ull,204}, {5645398275593429436ull,204}, {6167137563597060417ull,204}, {7179371508788818594ull,204}, {584228549634638551ull,205}, {1140290884920041467ull,205}, {2043214668872818625ull,205},
{2055712521199020139ull,205}, {3074195392553879073ull,205}, {4111425042398040278ull,205}, {5136156839915999969ull,205}, {9235084029987838733ull,205}, {9310071143945047817ull,205}, {9972365224003163602ull,205}, {634835642232698237ull,206},
{817285867549127450ull,206}, {1037229649844161205ull,206}, {1634571735098254900ull,206}, {2671801384942416105ull,206}, {3269143470196509800ull,206}, {5343602769884832210ull,206}, {5940944855138925905ull,206}, {7965412745522442259ull,206},
{9492521369261477030ull,206}, {534360276988483221ull,207}, {653828694039301960ull,207}, {1068720553976966442ull,207}, {1188188971027785181ull,207}, {2137441107953932884ull,207}, {2256909525004751623ull,207}, {4274882215907865768ull,207},
{4513819050009503246ull,207}, {8549764431815731536ull,207}, {9027638100019006492ull,207}, {807189076361245658ull,208}, {1046125910462883136ull,208}, {1614378152722491316ull,208}, {2092251820925766272ull,208}, {3018909314337830669ull,208},
{4394350632958684507ull,208}, {6247665619782813301ull,208}, {8788701265917369014ull,208}, {9511729858368034806ull,208}, {9954295593431070889ull,208}, {477873668203274956ull,209}, {920839524813167294ull,209}, {1165594327513701875ull,209},
{1841679049626334588ull,209}, {2074797915129074963ull,209}, {3007273377140036463ull,209}, {4149595830258149926ull,209}, {6014546754280072926ull,209}, {8299191660516299852ull,209}, {9488057862425590139ull,209}, {466237731005480750ull,210},
{582837175911536563ull,210}, {932475462010961500ull,210}, {1235569999319209613ull,210}, {1864950924021923000ull,210}, {2914025830938940313ull,210}, {4032996385352094113ull,210}, {5828051661877880626ull,210}, {8065992770704188226ull,210},
{8369087308012436339ull,210}, {745980369608769200ull,211}, {1049074906917017313ull,211}, {1491960739217538400ull,211}, {2391839572212801873ull,211}, {3287016015743324913ull,211}, {4783679144425603746ull,211}, {6574032031486649826ull,211},
{8070695160168928659ull,211}, {9832833710441532141ull,211}, {9908071941877379069ull,211}, {596784295687015360ull,212}, {899878832995263473ull,212}, {1193568591374030720ull,212}, {1735376846957084977ull,212}, {2451518001781503409ull,212},
{3406372874880727985ull,212}, {4903036003563006818ull,212}, {6812745749761455970ull,212}, {7767600622860680546ull,212}, {8786836314993347091ull,212}, {541808255583054257ull,213}, {681274574976145597ull,213}, {879769372739575205ull,213},
{1362549149952291194ull,213}, {2725098299904582388ull,213}, {2928945438331115697ull,213}, {5654043738235698085ull,213}, {5857890876662231394ull,213}, {6222766428210468404ull,213}, {9881157507485663007ull,213}, {703815498191660164ull,214},
{1130808747647139617ull,214}, {2261617495294279234ull,214}, {2465464633720812543ull,214}, {4523234990588558468ull,214}, {4727082129015091777ull,214}, {9046469981177116936ull,214}, {9454164258030183554ull,214}, {9939054425292901512ull,214},
{9954743542100100637ull,214}, {603821826238634793ull,215}, {823108142747098370ull,215}, {1019235692132666545ull,215}, {1646216285494196740ull,215}, {2665451977626863285ull,215}, {3292432570988393480ull,215}, {5142495994909123529ull,215},
{6773273102321390001ull,215}, {7965477576716729319ull,215}, {9908176069129040976ull,215}, {533090395525372657ull,216}, {658486514197678696ull,216}, {1066180791050745314ull,216}, {1316973028395357392ull,216}, {2132361582101490628ull,216},
{2633946056790714784ull,216}, {4264723164202981256ull,216}, {5267892113581429568ull,216}, {8152630407716756430ull,216}, {8341038368061359471ull,216}, {564470803427063565ull,217}, {627106106295987788ull,217}, {815263040771675643ull,217},
{1128941606854127130ull,217}, {1630526081543351286ull,217}, {2257883213708254260ull,217}, {2822102991266402639ull,217}, {4954715599236808453ull,217}, {5644205982532805278ull,217}, {9971564449604710757ull,217}, {740000266981400501ull,218},
{903153285483301704ull,218}, {1480000533962801002ull,218}, {1643153552464702205ull,218}, {2245255742786903341ull,218}, {2960001067925602004ull,218}, {4490511485573806682ull,218}, {5205256810712505345ull,218}, {8390544148271102403ull,218},
{9695768296286312027ull,218}, {604426863811339171ull,219}, {657261420985880882ull,219}, {1041051362142501069ull,219}, {1314522841971761764ull,219}, {2082102724285002138ull,219}, {2629045683943523528ull,219}, {4164205448570004276ull,219},
{5258091367887047056ull,219}, {7613665572001309889ull,219}, {8328410897140008552ull,219}, {382860071760964973ull,220}, {550662437241142246ull,220}, {765720143521929946ull,220}, {1261688284797220053ull,220}, {1808631244455741443ull,220},
{2246185612182558555ull,220}, {3617262488911482886ull,220}, {4492371224365117110ull,220}, {6082225284957449997ull,220}, {8984742448730234220ull,220}, {714745325138698663ull,221}, {898474244873023422ull,221}, {1796948489746046844ull,221},
{2027408428319149999ull,221}, {3593896979492093688ull,221}, {4054816856638299998ull,221}, {7187793958984187376ull,221}, {8109633713276599996ull,221}, {8844549392213899032ull,221}, {9492393344715218926ull,221}, {507011864860826941ull,222},
{828377716614855828ull,222}, {1014023729721653882ull,222}, {1611941507763406555ull,222}, {2028047459443307764ull,222}, {2994701139202025485ull,222}, {3547804991777473057ull,222}, {4285276795211403153ull,222}, {7095609983554946114ull,222},
{8570553590422806306ull,222}, {553103852575447572ull,223}, {598940227840405097ull,223}, {1152044080415852669ull,223}, {1197880455680810194ull,223}, {1520779982132817717ull,223}, {2395760911361620388ull,223}, {3041559964265635434ull,223},
{4008213644024353155ull,223}, {6083119928531270868ull,223}, {7233119109349818689ull,223}, {764973628592904611ull,224}, {801642728804870631ull,224}, {1529947257185809222ull,224}, {1603285457609741262ull,224}, {2276586335672730823ull,224},
{3206570915219482524ull,224}, {4553172671345461646ull,224}, {6413141830438965048ull,224}, {8909742767383491991ull,224}, {9106345342690923292ull,224}, {768640538614101213ull,225}, {797975818783674029ull,225}, {1537281077228202426ull,225},
{1595951637567348058ull,225}, {2291253975757517231ull,225}, {2408595096435808495ull,225}, {3916540893494438105ull,225}, {4817190192871616990ull,225}, {7833081786988876210ull,225}, {8733731086366055095ull,225}, {481719019287161699ull,226},
{544507758484306212ull,226}, {783308178698887621ull,226}, {963438038574323398ull,226}, {1566616357397775242ull,226}, {1746746217273211019ull,226}, {3133232714795550484ull,226}, {3313362574670986261ull,226}, {6266465429591100968ull,226},
{6446595289466536745ull,226}, {554594599008935786ull,227}, {734724458884371563ull,227}, {1109189198017871572ull,227}, {1289319057893307349ull,227}, {2218378396035743144ull,227}, {2578638115786614698ull,227}, {4436756792071486288ull,227},
{7555784487484408317ull,227}, {8873513584142972576ull,227}, {9840652588334559598ull,227}, {563117610638512859ull,228}, {731883455007845872ull,228}, {934741345895487177ull,228}, {1655260785397230285ull,228}, {2398508255911178921ull,228},
{3310521570794460570ull,228}, {3502015446175999111ull,228}, {6621043141588921140ull,228}, {7004030892351998222ull,228}, {9357083086238766087ull,228}, {632896751487466617ull,229}, {662104314158892114ull,229}, {853598189540430655ull,229},
{1324208628317784228ull,229}, {2177806817858214883ull,229}, {2648417256635568456ull,229}, {3060612570070071035ull,229}, {5296834513271136912ull,229}, {6121225140140142070ull,229}, {8357447083341207947ull,229}, {612122514014014207ull,230},
{1058051128240409134ull,230}, {1153488990409698097ull,230}, {1224245028028028414ull,230}, {2377734018437726511ull,230}, {2448490056056056828ull,230}, {4755468036875453022ull,230}, {4896980112112113656ull,230}, {9510936073750906044ull,230},
{9793960224224227312ull,230}, {503849218734877429ull,231}, {874743317639659434ull,231}, {1007698437469754858ull,231}, {1661616686847858131ull,231}, {2669315124317612989ull,231}, {2952339274790934257ull,231}, {4684711999257122705ull,231},
{5904678549581868514ull,231}, {8061587499758038864ull,231}, {8715505749136142137ull,231}, {364048534579529837ull,232}, {647072685052851105ull,232}, {936942399851424541ull,232}, {1294145370105702210ull,232}, {1873884799702849082ull,232},
{2231087769957126751ull,232}, {3747769599405698164ull,232}, {4104972569659975833ull,232}, {7852742169065673997ull,232}, {8209945139319951666ull,232}, {678113325830284099ull,233}, {1035316296084561768ull,233}, {1356226651660568198ull,233},
{1713429621914845867ull,233}, {3069656273575414065ull,233}, {3426859243829691734ull,233}, {6139312547150828130ull,233}, {6496515517405105799ull,233}, {9257358973630603847ull,233}, {9421001332267434908ull,233}, {561846721825971940ull,234},
{613931254715082813ull,234}, {1227862509430165626ull,234}, {1585065479684443295ull,234}, {2455725018860331252ull,234}, {3631502995401386005ull,234}, {4911450037720662504ull,234}, {6087228014261717257ull,234}, {7724378026835271425ull,234},
{7977411931311327348ull,234}, {380992287397721395ull,235}, {726300599080277201ull,235}, {830469664858498947ull,235}, {1452601198160554402ull,235}, {1544875605367054285ull,235}, {2905202396321108804ull,235}, {3089751210734108570ull,235},
{5810404792642217608ull,235}, {6179502421468217140ull,235}, {9891385165504381165ull,235}, {617950242146821714ull,236}, {866802855467643896ull,236}, {1235900484293643428ull,236}, {1978277033100876233ull,236}, {2471800968587286856ull,236},
{3214177517394519661ull,236}, {4943601937174573712ull,236}, {6428355034789039322ull,236}, {9448036723880775434ull,236}, {9887203874349147424ull,236}, {497705226641644364ull,237}, {838572561211374685ull,237}, {1039327168330125927ull,237},
{1677145122422749370ull,237}, {2078654336660251854ull,237}, {3607324149321554663ull,237}, {5092077246936020273ull,237}, {6279879725027592761ull,237}, {7808549537688895570ull,237}, {8061583442164951493ull,237}, {483904334245996435ull,238},
{703898143845576053ull,238}, {780854953768889557ull,238}, {1407796287691152106ull,238}, {2562558670906248289ull,238}, {2936466100352454915ull,238}, {3750361148997820777ull,238}, {5872932200704909830ull,238}, {6873780964073379005ull,238},
{8996352015780468058ull,238}, {1000848763368469175ull,239}, {1174586440140981966ull,239}, {1374756192814675801ull,239}, {2349172880281963932ull,239}, {2749512385629351602ull,239}, {4698345760563927864ull,239}, {5499024771258703204ull,239},
{9396691521127855728ull,239}, {9631010083362074627ull,239}, {9955623481882329662ull,239}, {654145083189377995ull,240}, {800679010694775340ull,240}, {1134552489606243199ull,240}, {1775095698162063471ull,240}, {2269104979212486398ull,240},
{3723929073096639733ull,240}, {5993034052309126131ull,240}, {7447858146193279466ull,240}, {8381469209759894428ull,240}, {9076419916849945592ull,240}, {523316066551502396ull,241}, {640543208555820272ull,241}, {990121598334809877ull,241},
{1337596951879835459ull,241}, {1689278377892789087ull,241}, {2675193903759670918ull,241}, {3087591937008747507ull,241}, {5350387807519341836ull,241}, {6175183874017495014ull,241}, {8954986702377699670ull,241}, {850290242423214035ull,242},
{1186463489014600634ull,242}, {1409615666069597403ull,242}, {2081962159252370601ull,242}, {2528266513362364139ull,242}, {4163924318504741202ull,242}, {5056533026724728278ull,242}, {9782672730893635739ull,242}, {9884649434593879167ull,242},
{9971660845970222978ull,242}, {680232193938571228ull,243}, {774591899945582107ull,243}, {1069499569100311789ull,243}, {1840148618667994881ull,243}, {2036753731437814669ull,243}, {3680297237335989762ull,243}, {4073507462875629338ull,243},
{7462839881434788433ull,243}, {8147014925751258676ull,243}, {9208628794095772435ull,243}, {482838511093171637ull,244}, {776957610172321516ull,244}, {1067922428949152183ull,244}, {1259796121265493153ull,244}, {1841725758819154487ull,244},
{2813711341610136185ull,244}, {3683451517638308974ull,244}, {5333303584141122491ull,244}, {6305289166932104189ull,244}, {9016755101779431465ull,244}, {345372646169413746ull,245}, {562742268322027237ull,245}, {677866483711831819ull,245},
{1125484536644054474ull,245}, {1803351020355886293ull,245}, {2250969073288108948ull,245}, {2852086080073404379ull,245}, {3606702040711772586ull,245}, {6458788120785176965ull,245}, {7213404081423545172ull,245}, {626665274105111717ull,246},
{844139571224812738ull,246}, {1291757624157035393ull,246}, {1688279142449625476ull,246}, {2583515248314070786ull,246}, {3338131208952438993ull,246}, {5167030496628141572ull,246}, {6676262417904877986ull,246}, {8863256147926358689ull,246},
{8940110299819982607ull,246}, {524388464852176549ull,247}, {652255411411763015ull,247}, {1010349853757541139ull,247}, {1342937898770337989ull,247}, {1726538738449097387ull,247}, {2980036766606660869ull,247}, {3235770659725833801ull,247},
{5960073533213321738ull,247}, {6471541319451667602ull,247}, {9784166131071125321ull,247}, {360678578068544261ull,248}, {521804329129410412ull,248}, {721357156137088522ull,248}, {882482907197954673ull,248}, {1764965814395909346ull,248},
{2192162001467012977ull,248}, {2780483939598982759ull,248}, {4384324002934025954ull,248}, {5560967879197965518ull,248}, {8768648005868051908ull,248}, {747964199738112270ull,249}, {855875863596930925ull,249}, {1603840063335043195ull,249},
{1711751727193861850ull,249}, {3207680126670086390ull,249}, {3315591790528905045ull,249}, {5240199866530956879ull,249}, {7806343967867025991ull,249}, {9089416018535060547ull,249}, {9521062673970335167ull,249}, {641536025334017278ull,250},
{663118358105781009ull,250}, {1283072050668034556ull,250}, {1326236716211562018ull,250}, {2566144101336069112ull,250}, {2652473432423124036ull,250}, {3827633819232339937ull,250}, {5304946864846248072ull,250}, {8000584962812899570ull,250},
{9132580684078588009ull,250}, {461431221614980868ull,251}, {547760552702035792ull,251}, {800058496281289957ull,251}, {1218325052352743363ull,251}, {1600116992562579914ull,251}, {2436650104705486726ull,251}, {2904771376002378201ull,251},
{5168762818533755079ull,251}, {5809542752004756402ull,251}, {9550847240150041415ull,251}, {699139318849588291ull,252}, {915567520057638365ull,252}, {1398278637699176582ull,252}, {1910169448030008283ull,252}, {3308448085729184865ull,252},
{3820338896060016566ull,252}, {6616896171458369730ull,252}, {7128786981789201431ull,252}, {8506390596952233428ull,252}, {9650556670600917553ull,252}, {661689617145836973ull,253}, {732454016046110692ull,253}, {953017221761389683ull,253},
{1323379234291673946ull,253}, {2646758468583347892ull,253}, {3158649278914179593ull,253}, {5293516937166695784ull,253}, {5805407747497527485ull,253}, {7569913393219759413ull,253}, {9563252253671728166ull,253}, {370362012530284263ull,254},
{653419608131379139ull,254}, {1161081549499505497ull,254}, {1252614835391400227ull,254}, {1901805574560074023ull,254}, {2322163098999010994ull,254}, {3017120481113632155ull,254}, {4644326197998021988ull,254}, {7661446679111654143ull,254},
{9288652395996043976ull,254}, {603424096222726431ull,255}, {1023781620661663402ull,255}, {1206848192445452862ull,255}, {1700432345597905617ull,255}, {2413696384890905724ull,255}, {2907280538043358479ull,255}, {4827392769781811448ull,255},
{7588220050398138359ull,255}, {8868294871557107005ull,255}, {9269650148153886243ull,255}, {445847726355911738ull,256}, {837471071840465425ull,256}, {888451475674414959ull,256}, {1674942143680930850ull,256}, {1773658974311421401ull,256},
{2168526296833383605ull,256}, {4337052593666767210ull,256}, {5518410584195245305ull,256}, {8674105187333534420ull,256}, {9065728532818088107ull,256}, {433705259366676721ull,257}, {669976857472372340ull,257}, {867410518733353442ull,257},
{1103682116839049061ull,257}, {1734821037466706884ull,257}, {2207364233678098122ull,257}, {3469642074933413768ull,257}, {4414728467356196244ull,257}, {6939284149866827536ull,257}, {8829456934712392488ull,257}, {899129663616606759ull,258},
{1071962971955795744ull,258}, {1371672859827997997ull,258}, {1798259327233213518ull,258}, {2743345719655995994ull,258}, {4368771738550020527ull,258}, {5486691439311991988ull,258}, {8656623626373203503ull,258}, {8936328601738498175ull,258},
{9921424819175095813ull,258}, {564853114076566709ull,259}, {703119760747917897ull,259}, {1129706228153133418ull,259}, {1406239521495835794ull,259}, {2259412456306266836ull,259}, {3446465480403913891ull,259}, {3884838475200291369ull,259},
{6892930960807827782ull,259}, {8241823686359149939ull,259}, {9981943297142201746ull,259}, {435698521115885857ull,260}, {594863748889069338ull,260}, {871397042231771714ull,260}, {1030562270004955195ull,260}, {1742794084463543428ull,260},
{1901959312236726909ull,260}, {3644753396700270337ull,260}, {3803918624473453818ull,260}, {7289506793400540674ull,260}, {7448672021173724155ull,260}, {665284588230780675ull,261}, {824449816003964156ull,261}, {1330569176461561350ull,261},
{1489734404234744831ull,261}, {2820303580696306181ull,261}, {2979468808469489662ull,261}, {5640607161392612362ull,261}, {7892195079994244605ull,261}, {9324682129952895934ull,261}, {9666287315276326405ull,261}, {532227670584624540ull,262},
{691392898357808021ull,262}, {1064455341169249080ull,262}, {1578439015998848921ull,262}, {1933257463055265281ull,262}, {3156878031997697842ull,262}, {3866514926110530562ull,262}, {5090135495052963123ull,262}, {7733029852221061124ull,262},
{8565343982597027927ull,262}, {425782136467699632ull,263}, {513983674829599841ull,263}, {851564272935399264ull,263}, {939765811297299473ull,263}, {1879531622594598946ull,263}, {2359039599522964913ull,263}, {3103152191537031507ull,263},
{5373990252698096211ull,263}, {6509409283278628563ull,263}, {7821231390582961333ull,263}, {701131919645533526ull,264}, {1135419030580532352ull,264}, {1180639896573899493ull,264}, {2270838061161064704ull,264}, {3451477957734964197ull,264},
{3976206800656697305ull,264}, {6902955915469928394ull,264}, {7952413601313394610ull,264}, {9526600130078593934ull,264}, {9608081087565991924ull,264}, {795241360131339461ull,265}, {803389455880079260ull,265}, {1590482720262678922ull,265},
{1598630816011418721ull,265}, {2123359658933151829ull,265}, {3180965440525357844ull,265}, {4246719317866303658ull,265}, {6361930881050715688ull,265}, {8493438635732607316ull,265}, {9534748225827333733ull,265}, {414894216888142607ull,266},
{642711564704063408ull,266}, {1057605781592206015ull,266}, {1285423129408126816ull,266}, {2115211563184412030ull,266}, {2766071223637215237ull,266}, {4035198161547862455ull,266}, {5727367412095392079ull,266}, {8070396323095724910ull,266},
{8265621287916686515ull,266}, {807039632309572491ull,267}, {846084625273764812ull,267}, {1614079264619144982ull,267}, {1653124257583337303ull,267}, {3228158529238289964ull,267}, {3306248515166674606ull,267}, {6456317058476579928ull,267},
{6612497030333349212ull,267}, {9658006481540350250ull,267}, {9723520580679062213ull,267}, {614395711476304136ull,268}, {692485697404688778ull,268}, {1228791422952608272ull,268}, {1384971394809377556ull,268}, {2457582845905216544ull,268},
{3345293508130866927ull,268}, {4652174917011859841ull,268}, {5802876354036083471ull,268}, {9304349834023719682ull,268}, {9567340608822292929ull,268}, {419170746655342531ull,269}, {731530690368881099ull,269}, {805491005916956541ull,269},
{1463061380737762198ull,269}, {1610982011833913082ull,269}, {2728832961464408191ull,269}, {3419253823678942369ull,269}, {5457665922928816382ull,269}, {7035797447369000943ull,269}, {8876919746607758751ull,269}, {618112414818582416ull,270},
{1183551924417952151ull,270}, {1236224829637164832ull,270}, {2406561808838127543ull,270}, {3958450318493078303ull,270}, {4037366238497524785ull,270}, {6036320377745175557ull,270}, {7916900636986156606ull,270}, {9876396816231584137ull,270},
{9889798637097318656ull,270}, {728557327695058475ull,271}, {807473247699504957ull,271}, {1112564971543699333ull,271}, {1614946495399009914ull,271}, {2038412099249874013ull,271}, {2727511466942709247ull,271}, {5455022933885418494ull,271},
{5957404457740729075ull,271}, {8153648396999496052ull,271}, {9905282820060215826ull,271}, {582845862156046780ull,272}, {608635029392099035ull,272}, {1165691724312093560ull,272}, {1191480891548145815ull,272}, {1880580259240981049ull,272},
{2382961783096291630ull,272}, {4765923566192583260ull,272}, {5216726755575789331ull,272}, {8076280895291339287ull,272}, {9531847132385166520ull,272}, {932553379449674848ull,273}, {953184713238516652ull,273}, {1906369426477033304ull,273},
{2377803949649081179ull,273}, {3812738852954066608ull,273}, {4755607899298162358ull,273}, {7625477705908133216ull,273}, {9511215798596324716ull,273}, {9988822629710999825ull,273}, {9999223757575547263ull,273}, {660008332440867025ull,274},
{984131713921779358ull,274}, {1320016664881734050ull,274}, {1644140046362646383ull,274}, {2640033329763468100ull,274}, {3718451948319657033ull,274}, {4095599566857295333ull,274}, {7436903896639314066ull,274}, {8191199133714590666ull,274},
{8839445896676415332ull,274}, {528006665952693620ull,275}, {701271000018550633ull,275}, {1056013331905387240ull,275}, {1380136713386299573ull,275}, {2112026663810774480ull,275}, {2737868140121797453ull,275}, {3643022424612129373ull,275},
{4849894803932571933ull,275}, {7286044849224258746ull,275}, {9699789607865143866ull,275}, {422405332762154896ull,276}, {444810619412956589ull,276}, {844810665524309792ull,276}, {1229277665971244253ull,276}, {1689621331048619584ull,276},
{2074088331495554045ull,276}, {3763709662544173629ull,276}, {4729207566000527677ull,276}, {7527419325088347258ull,276}, {9458415132001055354ull,276}, {792054713021331751ull,277}, {829635332598221618ull,277}, {1621690045619553369ull,277},
{1659270665196443236ull,277}, {3243380091239106738ull,277}, {3280960710815996605ull,277}, {6524340802055103343ull,277}, {6561921421631993210ull,277}, {8212531282150400655ull,277}, {9854328940074567991ull,277}, {618611522586309454ull,278},
{656192142163199321ull,278}, {1274803664749508775ull,278}, {1312384284326398642ull,278}, {2587187949075907417ull,278}, {2624768568652797284ull,278}, {4192113585929097681ull,278}, {6231799449528311721ull,278}, {8384227171858195362ull,278},
{9366489484080912515ull,278}, {509921465899803510ull,279}, {547502085476693377ull,279}, {1019842931799607020ull,279}, {1261392137736418291ull,279}, {1873297896816182503ull,279}, {2522784275472836582ull,279}, {3746595793632365006ull,279},
{4396082172289019085ull,279}, {7493191587264730012ull,279}, {8792164344578038170ull,279}, {815874345439685616ull,280}, {879216434457803817ull,280}, {1695090779897489433ull,280}, {1758432868915607634ull,280}, {3453523648813097067ull,280},
{3516865737831215268ull,280}, {6970389386644312335ull,280}, {7033731475662430536ull,280}, {8426337569177260883ull,280}, {9950227165147178007ull,280}, {665367894155372133ull,281}, {728709983173490334ull,281}, {1394077877328862467ull,281},
{1457419966346980668ull,281}, {2788155754657724934ull,281}, {2851497843675843135ull,281}, {5576311509315449868ull,281}, {5639653598333568069ull,281}, {6715733219734561426ull,281}, {9949123327286653917ull,281}, {506957479717050426ull,282},
{570299568735168627ull,282}, {1077257048452219053ull,282}, {1140599137470337254ull,282}, {2217856185922556307ull,282}, {2281198274940674508ull,282}, {4435712371845112614ull,282}, {4499054460863230815ull,282}, {5893169132787444085ull,282},
{8998108921726461630ull,282}, {836468803154527962ull,283}, {899810892172646163ull,283}, {1178633826557488817ull,283}, {1799621784345292326ull,283}, {2978255610902781143ull,283}, {3599243568690584652ull,283}, {5956511221805562286ull,283},
{7198487137381169304ull,283}, {9061451010744579831ull,283}, {9429070612459910536ull,283}, {494303779751567107ull,284}, {821196056167106052ull,284}, {915083639160068073ull,284}, {1642392112334212104ull,284}, {1756643357977070005ull,284},
{3358308145011490349ull,284}, {5188475423331626495ull,284}, {5335523264017758777ull,284}, {7819475095168972813ull,284}, {8113570776541237377ull,284}, {351328671595414001ull,285}, {612842492727845157ull,285}, {1037695084666325299ull,285},
{1184742925352457581ull,285}, {2075390169332650598ull,285}, {2704523592180412459ull,285}, {3815742597189803899ull,285}, {4150780338665301196ull,285}, {7966522935855105095ull,285}, {8301560677330602392ull,285}, {629133422847761861ull,286},
{964171164323259158ull,286}, {1224012945483010449ull,286}, {1593304587171021019ull,286}, {3186609174342042038ull,286}, {3521646915817539335ull,286}, {5299597323832565639ull,286}, {6373218348684084076ull,286}, {9259043681763142090ull,286},
{9525573622813612841ull,286}, {704329383163507867ull,287}, {852046039838712095ull,287}, {925904368176314209ull,287}, {1408658766327015734ull,287}, {2334563134503329943ull,287}, {2817317532654031468ull,287}, {4669126269006659886ull,287},
{6708256090159581373ull,287}, {7191010488310282898ull,287}, {9338252538013319772ull,287}, {380422844060573679ull,288}, {681636831870969676ull,288}, {868957916671262745ull,288}, {1363273663741939352ull,288}, {1459824543372079657ull,288},
{1846028061892640877ull,288}, {3692056123785281754ull,288}, {4572575389376519581ull,288}, {5731185944938203241ull,288}, {9145150778753039162ull,288}, {695166333337010196ull,289}, {1112241376703574559ull,289}, {1498444895224135779ull,289},
{1807407710040584755ull,289}, {2996889790448271558ull,289}, {3614815420081169510ull,289}, {4649816093080631825ull,289}, {8573594327978250311ull,289}, {9191519957611148263ull,289}, {9299632186161263650ull,289}, {621000403799677389ull,290},
{722963084016233902ull,290}, {929963218616126365ull,290}, {1445926168032467804ull,290}, {1859926437232252730ull,290}, {2375889386648594169ull,290}, {3719852874464505460ull,290}, {4751778773297188338ull,290}, {7439705748929010920ull,290},
{9503557546594376676ull,290}, {371985287446450546ull,291}, {659940611386232332ull,291}, {743970574892901092ull,291}, {1319881222772464664ull,291}, {1487941149785802184ull,291}, {2867770071021488981ull,291}, {2975882299571604368ull,291},
{5723756973666649083ull,291}, {5951764599143208736ull,291}, {8699639273238253451ull,291}, {777582560295568596ull,292}, {871142244161458233ull,292}, {1192709553503907523ull,292}, {2104740055410146135ull,292}, {2385419107007815046ull,292},
{4209480110820292270ull,292}, {4946174413371080487ull,292}, {8418960221640584540ull,292}, {9319207555170494273ull,292}, {9892348826742160974ull,292}, {806828782292968375ull,293}, {841896022164058454ull,293}, {1648724804457026829ull,293},
{1683792044328116908ull,293}, {2233366979147125851ull,293}, {3297449608914053658ull,293}, {5530816588061179509ull,293}, {6594899217828107316ull,293}, {7729116327337215281ull,293}, {8933467916588503404ull,293}, {488754083674733265ull,294},
{645463025834374700ull,294}, {1134217109509107965ull,294}, {1290926051668749400ull,294}, {1971456317374214179ull,294}, {2878830004981500551ull,294}, {3942912634748428358ull,294}, {5757660009963001102ull,294}, {7885825269496856716ull,294},
{9090176858748144839ull,294}, {907373687607286372ull,295}, {1032740841334999520ull,295}, {1580453050434427567ull,295}, {2299776007450144217ull,295}, {2675877468633283661ull,295}, {4599552014900288434ull,295}, {5335314954591286203ull,295},
{9199104029800576868ull,295}, {9684132662036148341ull,295}, {9717012627386710579ull,295}, {628893223638714803ull,296}, {826192673067999616ull,296}, {1257786447277429606ull,296}, {1455085896706714419ull,296}, {2712872343984144025ull,296},
{2910171793413428838ull,296}, {5623044137397572863ull,296}, {5820343586826857676ull,296}, {7628918597040983231ull,296}, {9864992128790152035ull,296}, {542574468796828805ull,297}, {739873918226113618ull,297}, {1085148937593657610ull,297},
{1282448387022942423ull,297}, {2170297875187315220ull,297}, {2367597324616600033ull,297}, {4340595750374630440ull,297}, {4735194649233200066ull,297}, {7563158666339858755ull,297}, {9470389298466400132ull,297}, {644512583193045663ull,298},
{868119150074926088ull,298}, {1289025166386091326ull,298}, {1512631733267971751ull,298}, {2578050332772182652ull,298}, {3025263466535943502ull,298}, {6050526933071887004ull,298}, {8404970698962189231ull,298}, {9838688942802738700ull,298},
{9983366294396467735ull,298}, {491934447140136935ull,299}, {789197797717139252ull,299}, {983868894280273870ull,299}, {1907230632126541377ull,299}, {2712214272901310907ull,299}, {3069984779912319587ull,299}, {5424428545802621814ull,299},
{6139969559824639174ull,299}, {9031069086231454421ull,299}, {9417775063561208908ull,299}, {393547557712109548ull,300}, {708699433639662299ull,300}, {787095115424219096ull,300}, {1460017498362780527ull,300}, {1574190230848438192ull,300},
{2819545425004613511ull,300}, {3535086439026630871ull,300}, {5639090850009227022ull,300}, {8601744477818244005ull,300}, {9746610100253471781ull,300}, {669871921027754294ull,301}, {1050476974535894507ull,301}, {1336693380144701451ull,301},
{1720348895563648801ull,301}, {3440697791127297602ull,301}, {4204958360054385165ull,301}, {6881395582254595204ull,301}, {8409916720108770330ull,301}, {9887985376164727951ull,301}, {9998041725493584372ull,301}, {537117721586526290ull,302},
{840991672010877033ull,302}, {1071184981262245443ull,302}, {1681983344021754066ull,302}, {2142369962524490886ull,302}, {3363966688043508132ull,302}, {4284739925048981772ull,302}, {7645656151181682767ull,302}, {8259504975851998527ull,302},
{9784975651795366516ull,302}, {429694177269221032ull,303}, {733568127693571775ull,303}, {794953010160603351ull,303}, {1040492540028729655ull,303}, {1589906020321206702ull,303}, {2753168325283999509ull,303}, {3179812040642413404ull,303},
{4343074345605206211ull,303}, {6359624081284826808ull,303}, {8686148691210412422ull,303}, {416197016011491862ull,304}, {586854502154857420ull,304}, {672183245226540199ull,304}, {832394032022983724ull,304}, {1344366490453080398ull,304},
{2166313823129142089ull,304}, {2688732980906160796ull,304}, {4332627646258284178ull,304}, {5377465961812321592ull,304}, {8665255292516568356ull,304}, {565610073801752051ull,305}, {938967203447771872ull,305}, {1131220147603504102ull,305},
{1376408647812369103ull,305}, {2262440295207008204ull,305}, {2507628795415873205ull,305}, {5015257590831746410ull,305}, {7779223645121929255ull,305}, {8291898162870548535ull,305}, {9272652163706008539ull,305}, {501525759083174641ull,306},
{604060662632898497ull,306}, {1003051518166349282ull,306}, {1555844729024385851ull,306}, {2006103036332698564ull,306}, {3111689458048771702ull,306}, {3664482668906808271ull,306}, {4012206072665397128ull,306}, {7676688741572205399ull,306},
{8024412145330794256ull,306}, {552793210858036569ull,307}, {609854649521693027ull,307}, {871985895284797197ull,307}, {1105586421716073138ull,307}, {1743971790569594394ull,307}, {2558896247190735133ull,307}, {3140220177380599931ull,307},
{5117792494381470266ull,307}, {6280440354761199862ull,307}, {8258012671762070197ull,307}, {767133396979555529ull,308}, {814924456621140739ull,308}, {1234334449842107411ull,308}, {1929781257359285125ull,308}, {2073154436284040755ull,308},
{3464048051318396183ull,308}, {4350659097401914737ull,308}, {6928096102636792366ull,308}, {8701318194803829474ull,308}, {9696697346438010835ull,308},
};
static const Decimal F9[] = {
{700649233ull,-54}, {70064924ull,-53}, {210194769ull,-53}, {210194770ull,-53}, {350324616ull,-53}, {490454463ull,-53}, {630584309ull,-53}, {770714155ull,-53},
{63058431ull,-52}, {91084400ull,-52}, {175162308ull,-52}, {217201262ull,-52}, {371344093ull,-52}, {413383047ull,-52}, {567525878ull,-52}, {805746617ull,-52},
{931863479ull,-52}, {959889448ull,-52}, {48344797ull,-51}, {69364274ull,-51}, {126817511ull,-51}, {147836988ull,-51}, {205290225ull,-51}, {344018773ull,-51},
{618673272ull,-51}, {657909629ull,-51}, {736382343ull,-51}, {992819962ull,-51}, {38325513ull,-50}, {40147201ull,-50}, {77561870ull,-50}, {114976539ull,-50},
{154212896ull,-50}, {193449253ull,-50}, {309336636ull,-50}, {464460376ull,-50}, {580347759ull,-50}, {696235142ull,-50}, {69805683ull,-49}, {108131196ull,-49},
{170180692ull,-49}, {185693066ull,-49}, {363629945ull,-49}, {379142319ull,-49}, {557079198ull,-49}, {735016077ull,-49}, {928465330ull,-49}, {997815591ull,-49},
{52605445ull,-48}, {60361632ull,-48}, {92846533ull,-48}, {165572522ull,-48}, {278539599ull,-48}, {351265588ull,-48}, {536958654ull,-48}, {609684643ull,-48},
{795377709ull,-48}, {981070775ull,-48}, {41623539ull,-47}, {72265172ull,-47}, {113427894ull,-47}, {123948983ull,-47}, {175632794ull,-47}, {268479327ull,-47},
{320163138ull,-47}, {568061104ull,-47}, {764275259ull,-47}, {815959070ull,-47}, {75375417ull,-46}, {81595907ull,-46}, {120838738ull,-46}, {205544890ull,-46},
{241677476ull,-46}, {450332611ull,-46}, {483354952ull,-46}, {927467073ull,-46}, {964790013ull,-46}, {966709904ull,-46}, {79729760ull,-45}, {82217956ull,-45},
{122704885ull,-45}, {159459520ull,-45}, {203678743ull,-45}, {360650067ull,-45}, {407357486ull,-45}, {721300134ull,-45}, {814714972ull,-45}, {920002485ull,-45},
{49081954ull,-44}, {63783808ull,-44}, {98163908ull,-44}, {127567616ull,-44}, {184000497ull,-44}, {267462551ull,-44}, {368000994ull,-44}, {534925102ull,-44},
{831791361ull,-44}, {974060831ull,-44}, {73034363ull,-43}, {111915948ull,-43}, {128042523ull,-43}, {223831896ull,-43}, {256085046ull,-43}, {437236101ull,-43},
{522597783ull,-43}, {874472202ull,-43}, {963552088ull,-43}, {993057111ull,-43}, {64684105ull,-42}, {85361682ull,-42}, {129368210ull,-42}, {150045787ull,-42},
{206953575ull,-42}, {258736420ull,-42}, {413907150ull,-42}, {424334841ull,-42}, {827814300ull,-42}, {848669682ull,-42}, {41390715ull,-41}, {51747284ull,-41},
{82781430ull,-41}, {103494568ull,-41}, {165562860ull,-41}, {206989136ull,-41}, {413978272ull,-41}, {465689995ull,-41}, {693392269ull,-41}, {931379990ull,-41},
{93137999ull,-40}, {120050854ull,-40}, {186275998ull,-40}, {213188853ull,-40}, {372551996ull,-40}, {399464851ull,-40}, {745103992ull,-40}, {798929702ull,-40},
{988864698ull,-40}, {998051539ull,-40}, {52671113ull,-39}, {92658304ull,-39}, {102268849ull,-39}, {185316608ull,-39}, {204537698ull,-39}, {373706593ull,-39},
{728956279ull,-39}, {772016847ull,-39}, {793547131ull,-39}, {941185742ull,-39}, {53825710ull,-38}, {66129205ull,-38}, {107651420ull,-38}, {119954915ull,-38},
{227606335ull,-38}, {239909830ull,-38}, {467516165ull,-38}, {479819660ull,-38}, {750486563ull,-38}, {959639320ull,-38}, {45521267ull,-37}, {47981966ull,-37},
{93503233ull,-37}, {95963932ull,-37}, {187006466ull,-37}, {191927864ull,-37}, {374012932ull,-37}, {383855728ull,-37}, {748025864ull,-37}, {942414427ull,-37},
{70865468ull,-36}, {80708264ull,-36}, {118601697ull,-36}, {184545767ull,-36}, {260332633ull,-36}, {345962295ull,-36}, {411906365ull,-36}, {800683491ull,-36},
{823812730ull,-36}, {948813576ull,-36}, {65944070ull,-35}, {69192459ull,-35}, {82381273ull,-35}, {138384918ull,-35}, {164762546ull,-35}, {276769836ull,-35},
{329525092ull,-35}, {550291283ull,-35}, {659050184ull,-35}, {879816375ull,-35}, {33602187ull,-34}, {52755256ull,-34}, {67204374ull,-34}, {108758901ull,-34},
{175963275ull,-34}, {217517802ull,-34}, {351926550ull,-34}, {483086909ull,-34}, {703853100ull,-34}, {966173818ull,-34}, {60775049ull,-33}, {70385310ull,-33},
{131160359ull,-33}, {140770620ull,-33}, {262320718ull,-33}, {281541240ull,-33}, {563082480ull,-33}, {815792937ull,-33}, {835013459ull,-33}, {911895547ull,-33},
{56308248ull,-32}, {64565191ull,-32}, {112616496ull,-32}, {140093961ull,-32}, {225232992ull,-32}, {252710457ull,-32}, {450465984ull,-32}, {609780467ull,-32},
{692212862ull,-32}, {900931968ull,-32}, {38495858ull,-31}, {65918509ull,-31}, {71441409ull,-31}, {131837018ull,-31}, {148323497ull,-31}, {170305469ull,-31},
{296646994ull,-31}, {477943449ull,-31}, {593293988ull,-31}, {774590443ull,-31}, {58241263ull,-30}, {86795901ull,-30}, {116482526ull,-30}, {209851093ull,-30},
{253815037ull,-30}, {419702186ull,-30}, {455961477ull,-30}, {839404372ull,-30}, {860254357ull,-30}, {911922954ull,-30}, {44599285ull,-29}, {83757891ull,-29},
{149207161ull,-29}, {157547155ull,-29}, {230065737ull,-29}, {298414322ull,-29}, {460131474ull,-29}, {528480059ull,-29}, {681857217ull,-29}, {920262948ull,-29},
{46338874ull,-28}, {63018862ull,-28}, {79008031ull,-28}, {126037724ull,-28}, {150366887ull,-28}, {252075448ull,-28}, {320424033ull,-28}, {375102901ull,-28},
{640848066ull,-28}, {988611533ull,-28}, {78958632ull,-27}, {107827901ull,-27}, {132107665ull,-27}, {215655802ull,-27}, {347763467ull,-27}, {399382665ull,-27},
{611978797ull,-27}, {695526934ull,-27}, {894552147ull,-27}, {933932665ull,-27}, {55290802ull,-26}, {79876533ull,-26}, {135167335ull,-26}, {159753066ull,-26},
{186786533ull,-26}, {294920401ull,-26}, {373573066ull,-26}, {589840802ull,-26}, {747146132ull,-26}, {830694269ull,-26}, {47191599ull,-25}, {54066934ull,-25},
{101258533ull,-25}, {108133868ull,-25}, {146470269ull,-25}, {272314533ull,-25}, {292940538ull,-25}, {544629066ull,-25}, {628177203ull,-25}, {949663198ull,-25},
{67047333ull,-24}, {72547601ull,-24}, {134094666ull,-24}, {209392401ull,-24}, {268189332ull,-24}, {343487067ull,-24}, {611676399ull,-24}, {686974134ull,-24},
{934868411ull,-24}, {997459593ull,-24}, {56179177ull,-23}, {79356746ull,-23}, {97298807ull,-23}, {173773039ull,-23}, {179538067ull,-23}, {347546078ull,-23},
{376488675ull,-23}, {695092156ull,-23}, {830628079ull,-23}, {890866267ull,-23}, {47955251ull,-22}, {57461578ull,-22}, {75297735ull,-22}, {114923156ull,-22},
{190220891ull,-22}, {229846312ull,-22}, {420067203ull,-22}, {540543579ull,-22}, {760883564ull,-22}, {800508985ull,-22}, {60238188ull,-21}, {99863609ull,-21},
{160101797ull,-21}, {192442179ull,-21}, {320203594ull,-21}, {424509779ull,-21}, {600781767ull,-21}, {888644979ull,-21}, {942840478ull,-21}, {963811008ull,-21},
{53201619ull,-20}, {71965803ull,-20}, {104306185ull,-20}, {143931606ull,-20}, {248237791ull,-20}, {287863212ull,-20}, {496475582ull,-20}, {702990899ull,-20},
{738422214ull,-20}, {992951164ull,-20}, {41722474ull,-19}, {48808737ull,-19}, {83444948ull,-19}, {123070369ull,-19}, {206515317ull,-19}, {257421107ull,-19},
{413030634ull,-19}, {554467635ull,-19}, {605373425ull,-19}, {967498269ull,-19}, {90531211ull,-18}, {110893527ull,-18}, {181062422ull,-18}, {221787054ull,-18},
{302137107ull,-18}, {443574108ull,-18}, {544286477ull,-18}, {604274214ull,-18}, {968597480ull,-18}, {985662163ull,-18}, {48429874ull,-17}, {56135116ull,-17},
{96859748ull,-17}, {156847485ull,-17}, {193719496ull,-17}, {358272223ull,-17}, {551991719ull,-17}, {641146225ull,-17}, {761121699ull,-17}, {939430711ull,-17},
{62738994ull,-16}, {65490251ull,-16}, {125477988ull,-16}, {128229245ull,-16}, {253707233ull,-16}, {256458490ull,-16}, {510165723ull,-16}, {512916980ull,-16},
{677469707ull,-16}, {682972221ull,-16}, {99832139ull,-15}, {102583396ull,-15}, {132192433ull,-15}, {205166792ull,-15}, {337359225ull,-15}, {410333584ull,-15},
{612749119ull,-15}, {820667168ull,-15}, {977620914ull,-15}, {995570133ull,-15}, {67471845ull,-14}, {86468728ull,-14}, {134943690ull,-14}, {180929311ull,-14},
{269887380ull,-14}, {315873001ull,-14}, {477805429ull,-14}, {631746002ull,-14}, {893641527ull,-14}, {955610858ull,-14}, {50780734ull,-13}, {53977476ull,-13},
{101561468ull,-13}, {107954952ull,-13}, {215909904ull,-13}, {265092267ull,-13}, {431819808ull,-13}, {530184534ull,-13}, {739700954ull,-13}, {801670285ull,-13},
{63740521ull,-12}, {118430773ull,-12}, {160334057ull,-12}, {174892215ull,-12}, {320668114ull,-12}, {411753761ull,-12}, {579366897ull,-12}, {641336228ull,-12},
{978117052ull,-12}, {997428142ull,-12}, {69956886ull,-11}, {76527489ull,-11}, {104226853ull,-11}, {139913772ull,-11}, {208453706ull,-11}, {230999419ull,-11},
{413170713ull,-11}, {416907412ull,-11}, {784986699ull,-11}, {826341426ull,-11}, {42438081ull,-10}, {45452544ull,-10}, {81139463ull,-10}, {84876162ull,-10},
{159986699ull,-10}, {162278926ull,-10}, {314792227ull,-10}, {319973398ull,-10}, {629584454ull,-10}, {630181171ull,-10}, {31419551ull,-9}, {33033574ull,-9},
{62839102ull,-9}, {64114023ull,-9}, {125678204ull,-9}, {126274921ull,-9}, {250596717ull,-9}, {251356408ull,-9}, {500759691ull,-9}, {501193434ull,-9},
{50184533ull,-8}, {50206092ull,-8}, {100021559ull,-8}, {100369066ull,-8}, {200043118ull,-8}, {200347507ull,-8}, {400086236ull,-8}, {400304389ull,-8},
{800172472ull,-8}, {800218153ull,-8}, {40035007ull,-7}, {40043118ull,-7}, {80008111ull,-7}, {80070014ull,-7}, {160016222ull,-7}, {160061903ull,-7},
{320032444ull,-7}, {320045681ull,-7}, {640013237ull,-7}, {640064888ull,-7}, {32000597ull,-6}, {32015028ull,-6}, {64001194ull,-6}, {64014431ull,-6},
{128002388ull,-6}, {128013237ull,-6}, {256004776ull,-6}, {256010849ull,-6}, {512006073ull,-6}, {512009552ull,-6}, {51201474ull,-5}, {51201651ull,-5},
{102400177ull,-5}, {102402948ull,-5}, {204800354ull,-5}, {204802771ull,-5}, {409600708ull,-5}, {409602417ull,-5}, {819201416ull,-5}, {819201709ull,-5},
{40960271ull,-4}, {40960354ull,-4}, {81920083ull,-4}, {81920542ull,-4}, {163840166ull,-4}, {163840459ull,-4}, {327680293ull,-4}, {327680332ull,-4},
{655360039ull,-4}, {655360586ull,-4}, {32768041ull,-3}, {32768084ull,-3}, {65536043ull,-3}, {65536082ull,-3}, {131072039ull,-3}, {131072086ull,-3},
{262144047ull,-3}, {262144078ull,-3}, {524288031ull,-3}, {524288094ull,-3}, {52428803ull,-2}, {52428822ull,-2}, {104857606ull,-2}, {104857619ull,-2},
{209715212ull,-2}, {209715213ull,-2}, {419430424ull,-2}, {419430425ull,-2}, {419430426ull,-2}, {838860849ull,-2}, {838860850ull,-2}, {838860851ull,-2},
{41943042ull,-1}, {41943043ull,-1}, {83886084ull,-1}, {83886085ull,-1}, {83886086ull,-1}, {167772169ull,-1}, {167772170ull,-1}, {167772171ull,-1},
{335544339ull,-1}, {335544340ull,-1}, {335544341ull,-1}, {671088679ull,-1}, {671088680ull,-1}, {671088681ull,-1}, {33554434ull,0}, {67108867ull,0},
{67108868ull,0}, {67108869ull,0}, {134217735ull,0}, {134217736ull,0}, {134217737ull,0}, {268435471ull,0}, {268435472ull,0}, {268435473ull,0},
{536870943ull,0}, {536870944ull,0}, {536870945ull,0}, {53687101ull,1}, {53687107ull,1}, {53687120ull,1}, {107374189ull,1}, {107374227ull,1},
{107374240ull,1}, {214748403ull,1}, {214748429ull,1}, {214748480ull,1}, {429496755ull,1}, {429496909ull,1}, {429496960ull,1}, {858993613ull,1},
{858993715ull,1}, {858993920ull,1}, {42949696ull,2}, {42949737ull,2}, {42949783ull,2}, {85899351ull,2}, {85899392ull,2}, {85899433ull,2},
{171798743ull,2}, {171798784ull,2}, {171798825ull,2}, {343597527ull,2}, {343597568ull,2}, {343597609ull,2}, {687195136ull,2}, {687196119ull,2},
{687196201ull,2}, {34359765ull,3}, {34359851ull,3}, {34360064ull,3}, {68719915ull,3}, {68720128ull,3}, {68720341ull,3}, {137440043ull,3},
{137440256ull,3}, {137440469ull,3}, {274878251ull,3}, {274878677ull,3}, {274880512ull,3}, {549759189ull,3}, {549761024ull,3}, {549762859ull,3},
{54978193ull,4}, {54978560ull,4}, {54978927ull,4}, {109956753ull,4}, {109957120ull,4}, {109957487ull,4}, {219913873ull,4}, {219914240ull,4},
{219914607ull,4}, {439828113ull,4}, {439828480ull,4}, {439828847ull,4}, {879623825ull,4}, {879624559ull,4}, {879656960ull,4}, {43982848ull,5},
{43989475ull,5}, {43992605ull,5}, {87965696ull,5}, {87972323ull,5}, {87991837ull,5}, {175924765ull,5}, {175931392ull,5}, {175938019ull,5},
{351856157ull,5}, {351862784ull,5}, {351869411ull,5}, {703718941ull,5}, {703725568ull,5}, {703732195ull,5}, {35184953ull,6}, {35200711ull,6},
{35225600ull,6}, {70426311ull,6}, {70451200ull,6}, {70476089ull,6}, {140746439ull,6}, {140796217ull,6}, {140902400ull,6}, {281648839ull,6},
{281804800ull,6}, {281960761ull,6}, {563453639ull,6}, {563609600ull,6}, {563765561ull,6}, {56360960ull,7}, {56539483ull,7}, {56706725ull,7},
{112721920ull,7}, {112900443ull,7}, {113591973ull,7}, {225443840ull,7}, {226313893ull,7}, {226670939ull,7}, {450887680ull,7}, {451757733ull,7},
{454211931ull,7}, {900905307ull,7}, {901775360ull,7}, {902645413ull,7}, {45088768ull,8}, {45682209ull,8}, {46592479ull,8}, {90177536ull,8},
{91681247ull,8}, {92868129ull,8}, {180355072ull,8}, {181858783ull,8}, {187239969ull,8}, {360710144ull,8}, {362213855ull,8}, {375983649ull,8},
{721420288ull,8}, {736693793ull,8}, {739701215ull,8}, {37748736ull,9}, {40803437ull,9}, {43082643ull,9}, {72442771ull,9}, {75497472ull,9},
{78552173ull,9}, {147940243ull,9}, {150994944ull,9}, {154049645ull,9}, {301989888ull,9}, {332489619ull,9}, {338599021ull,9}, {603979776ull,9},
{640588909ull,9}, {701588371ull,9}, {72597870ull,10}, {81141577ull,10}, {100663296ull,10}, {181804873ull,10}, {201326592ull,10}, {220848311ull,10},
{383131465ull,10}, {402653184ull,10}, {422174903ull,10}, {785784649ull,10}, {805306368ull,10}, {824828087ull,10}, {927305292ull,10}, {985917728ull,10},
{58078296ull,11}, {76626293ull,11}, {153252586ull,11}, {172774305ull,11}, {306505172ull,11}, {326026891ull,11}, {402166323ull,11}, {652053782ull,11},
{804332646ull,11}, {882419522ull,11}, {49588003ull,12}, {69109722ull,12}, {99176006ull,12}, {138219444ull,12}, {171800583ull,12}, {276438888ull,12},
{317049737ull,12}, {579429205ull,12}, {816824655ull,12}, {869927513ull,12}, {74030519ull,13}, {115885841ull,13}, {163364931ull,13}, {216467789ull,13},
{258323111ull,13}, {326729862ull,13}, {585052973ull,13}, {653459724ull,13}, {950503335ull,13}, {964885693ull,13}, {53102858ull,14}, {91270437ull,14},
{144373295ull,14}, {159492881ull,14}, {220339839ull,14}, {288746590ull,14}, {509086429ull,14}, {577493180ull,14}, {881359356ull,14}, {889287763ull,14},
{57749318ull,15}, {62211471ull,15}, {115498636ull,15}, {141275655ull,15}, {230997272ull,15}, {256774291ull,15}, {461994544ull,15}, {487771563ull,15},
{923989088ull,15}, {949766107ull,15}, {87243505ull,16}, {113020524ull,16}, {174487010ull,16}, {200264029ull,16}, {374751039ull,16}, {400528058ull,16},
{749502078ull,16}, {775279097ull,16}, {983463776ull,16}, {989431413ull,16}, {69794804ull,17}, {95571823ull,17}, {139589608ull,17}, {165366627ull,17},
{279179216ull,17}, {304956235ull,17}, {584135451ull,17}, {609912470ull,17}, {776078919ull,17}, {987831769ull,17}, {58690380ull,18}, {60991247ull,18},
{96205475ull,18}, {121982494ull,18}, {218187969ull,18}, {243964988ull,18}, {316694311ull,18}, {487929976ull,18}, {633388622ull,18}, {804624287ull,18},
{94271285ull,19}, {111211513ull,19}, {154295437ull,19}, {222423026ull,19}, {274343741ull,19}, {444846052ull,19}, {514440349ull,19}, {889692104ull,19},
{993166857ull,19}, {999546538ull,19}, {75417028ull,20}, {95818637ull,20}, {116586923ull,20}, {191637274ull,20}, {239729931ull,20}, {383274548ull,20},
{479459862ull,20}, {691498745ull,20}, {896981543ull,20}, {958919724ull,20}, {40803218ull,21}, {79139493ull,21}, {135677315ull,21}, {138299749ull,21},
{204171581ull,21}, {276599498ull,21}, {346404981ull,21}, {480771079ull,21}, {692809962ull,21}, {961542158ull,21}, {43981237ull,22}, {54270926ull,22},
{98252163ull,22}, {108541852ull,22}, {155145523ull,22}, {175724901ull,22}, {268932243ull,22}, {351449802ull,22}, {537864486ull,22}, {702899604ull,22},
{78561721ull,23}, {86873491ull,23}, {132388179ull,23}, {157123442ull,23}, {223417555ull,23}, {314246884ull,23}, {446835110ull,23}, {587134965ull,23},
{843399506ull,23}, {852311417ull,23}, {44683511ull,24}, {79392898ull,24}, {89367022ull,24}, {117426993ull,24}, {178734044ull,24}, {234853986ull,24},
{345631563ull,24}, {357468088ull,24}, {649904323ull,24}, {673577373ull,24}, {49923025ull,25}, {52290330ull,25}, {102213355ull,25}, {104580660ull,25},
{163067907ull,25}, {167802517ull,25}, {284777011ull,25}, {294246231ull,25}, {537664439ull,25}, {569554022ull,25}, {81770684ull,26}, {83664528ull,26},
{124076409ull,26}, {163541368ull,26}, {248152818ull,26}, {287617777ull,26}, {496305636ull,26}, {701205807ull,26}, {945570937ull,26}, {992611272ull,26},
{73309539ull,27}, {82717606ull,27}, {156027145ull,27}, {165435212ull,27}, {321462357ull,27}, {330870424ull,27}, {652332781ull,27}, {661740848ull,27},
{866641019ull,27}, {885457153ull,27}, {36483731ull,28}, {62410858ull,28}, {72967462ull,28}, {124821716ull,28}, {169564977ull,28}, {188381111ull,28},
{277867633ull,28}, {438024543ull,28}, {616997587ull,28}, {876049086ull,28}, {80078455ull,29}, {82878898ull,29}, {160156910ull,29}, {162957353ull,29},
{323114263ull,29}, {325914706ull,29}, {649028969ull,29}, {651829412ull,29}, {852766458ull,29}, {999800237ull,29}, {64062764ull,30}, {66863207ull,30},
{128125528ull,30}, {130925971ull,30}, {208921465ull,30}, {309181533ull,30}, {364912453ull,30}, {671293543ull,30}, {729824906ull,30}, {983275519ull,30},
{41784293ull,31}, {50130034ull,31}, {83568586ull,31}, {91914327ull,31}, {167137172ull,31}, {175482913ull,31}, {334274344ull,31}, {342620085ull,31},
{685240170ull,31}, {905307819ull,31}, {68524017ull,32}, {105860954ull,32}, {137048034ull,32}, {174384971ull,32}, {274096068ull,32}, {402798361ull,32},
{548192136ull,32}, {676894429ull,32}, {880270596ull,32}, {967681979ull,32}, {45595119ull,33}, {83107174ull,33}, {91190238ull,33}, {170343439ull,33},
{236759131ull,33}, {245017313ull,33}, {361332333ull,33}, {490034626ull,33}, {722664666ull,33}, {980069252ull,33}, {42396917ull,34}, {50655099ull,34},
{101310198ull,34}, {120444111ull,34}, {202620396ull,34}, {240888222ull,34}, {331322689ull,34}, {555694547ull,34}, {588727275ull,34}, {963552888ull,34},
{82095178ull,35}, {95831779ull,35}, {117745455ull,35}, {177926957ull,35}, {235490910ull,35}, {429772017ull,35}, {470981820ull,35}, {859544034ull,35},
{960935339ull,35}, {979907038ull,35}, {47098182ull,36}, {80459763ull,36}, {94196364ull,36}, {127557945ull,36}, {221754309ull,36}, {255115890ull,36},
{443508618ull,36}, {476870199ull,36}, {887017236ull,36}, {953740398ull,36}, {40556522ull,37}, {51023178ull,37}, {102046356ull,37}, {114474625ull,37},
{204092712ull,37}, {216520981ull,37}, {408185424ull,37}, {420613693ull,37}, {828799117ull,37}, {841227386ull,37}, {79151431ull,38}, {91579700ull,38},
{158302862ull,38}, {170731131ull,38}, {255770233ull,38}, {402297753ull,38}, {597232495ull,38}, {804595506ull,38}, {937388903ull,38}, {951123026ull,38},
};
static const Decimal F19[] = {
{7006492321624085355ull,-64}, {700649232162408536ull,-63}, {2101947696487225606ull,-63}, {2101947696487225607ull,-63}, {3503246160812042678ull,-63}, {4904544625136859748ull,-63}, {6305843089461676820ull,-63}, {9108440018111310961ull,-63},
{630584308946167682ull,-62}, {770714155378649389ull,-62}, {1191103694676094510ull,-62}, {2172012619703466460ull,-62}, {2312142466135948167ull,-62}, {3713440930460765238ull,-62}, {5394999087650545723ull,-62}, {8337725862732661572ull,-62},
{9739024327057478643ull,-62}, {9879154173489960350ull,-62}, {553512893408302743ull,-61}, {651603785911039938ull,-61}, {987915417348996035ull,-61}, {1422317941289689327ull,-61}, {2193032096668338716ull,-61}, {2963746252046988105ull,-61},
{4168862931366330786ull,-61}, {6144693766064322856ull,-61}, {8120524600762314926ull,-61}, {9325641280081657607ull,-61}, {484148619424224298ull,-60}, {701349881394570944ull,-60}, {879314786363822712ull,-60}, {1294099131803968565ull,-60},
{1472064036773220333ull,-60}, {2677180716092563014ull,-60}, {2874763799562362221ull,-60}, {5660545146640098558ull,-60}, {8426708315217287456ull,-60}, {8624291398687086663ull,-60}, {684604364745889380ull,-59}, {882187448215688587ull,-59},
{1536173441516080714ull,-59}, {1992576351346673634ull,-59}, {3102965254477658681ull,-59}, {3756951247778050808ull,-59}, {5977729054040020902ull,-59}, {8852492853602383123ull,-59}, {9506478846902775250ull,-59}, {9962881756733368170ull,-59},
{479223055322122566ull,-58}, {905007593707218233ull,-58}, {950647884690277525ull,-58}, {996288175673336817ull,-58}, {1969756205855143988ull,-58}, {2988864527020010451ull,-58}, {3962332557201817622ull,-58}, {5954908908548491256ull,-58},
{7947485259895164890ull,-58}, {8920953290076972061ull,-58}, {391669226621875833ull,-57}, {604618949051460984ull,-57}, {794748525989516489ull,-57}, {1387957402295212650ull,-57}, {1981166278600908811ull,-57}, {2384245577968549467ull,-57},
{3570663330579941789ull,-57}, {5753369258864670928ull,-57}, {7936075187149400067ull,-57}, {8529284063455096228ull,-57}, {693978701147606325ull,-56}, {933544266219037754ull,-56}, {1249161662065691385ull,-56}, {2321501668514250404ull,-56},
{3015480369661856729ull,-56}, {3570663330579941789ull,-56}, {6030960739323713458ull,-56}, {7141326661159883578ull,-56}, {9841189634975086676ull,-56}, {9993293296525531080ull,-56}, {499664664826276554ull,-55}, {905785118173133501ull,-55},
{999329329652553108ull,-55}, {1738559559550261091ull,-55}, {3182035257937282247ull,-55}, {3626181626671750295ull,-55}, {6364070515874564494ull,-55}, {7252363253343500590ull,-55}, {7991593483241208573ull,-55}, {9768178958179080765ull,-55},
{399123501065177985ull,-54}, {725236325334350059ull,-54}, {798247002130355970ull,-54}, {1450472650668700118ull,-54}, {1953635791635816153ull,-54}, {2071669336101112127ull,-54}, {3907271583271632306ull,-54}, {4972614637438512363ull,-54},
{6985267201306976503ull,-54}, {7814543166543264612ull,-54}, {662812541393187229ull,-53}, {947309509701584083ull,-53}, {1894619019403168166ull,-53}, {2154901048022662567ull,-53}, {2439398016331059421ull,-53}, {4309802096045325134ull,-53},
{4878796032662118842ull,-53}, {8619604192090650268ull,-53}, {9757592065324237684ull,-53}, {9987576846296397050ull,-53}, {653734796313469506ull,-52}, {696105226161807405ull,-52}, {1392210452323614810ull,-52}, {1785663220017589915ull,-52},
{2306227277256578717ull,-52}, {3571326440035179830ull,-52}, {5877553717291758547ull,-52}, {6833940972073060353ull,-52}, {8577233762242312369ull,-52}, {9224909109026314868ull,-52}, {556884180929445924ull,-51}, {714265288007035966ull,-51},
{1113768361858891848ull,-51}, {1428530576014071932ull,-51}, {1591961989249542751ull,-51}, {2857061152028143864ull,-51}, {3183923978499085502ull,-51}, {5714122304056287728ull,-51}, {6991322079150650395ull,-51}, {7614796201303129786ull,-51},
{629524428310360168ull,-50}, {641625040626121722ull,-50}, {1259048856620720336ull,-50}, {1398264415830130079ull,-50}, {2657313272450850415ull,-50}, {2796528831660260158ull,-50}, {5593057663320520316ull,-50}, {6470761679260296085ull,-50},
{9878781055913577824ull,-50}, {9987569531599128066ull,-50}, {531462654490170083ull,-49}, {762689681361889134ull,-49}, {1294152335852059217ull,-49}, {1525379362723778268ull,-49}, {2819531698575837485ull,-49}, {3050758725447556536ull,-49},
{5639063397151674970ull,-49}, {6101517450895113072ull,-49}, {8597810654936922198ull,-49}, {9475514670876697967ull,-49}, {563906339715167497ull,-48}, {573347158024587584ull,-48}, {1127812679430334994ull,-48}, {1137253497739755081ull,-48},
{2255625358860669988ull,-48}, {2265066177170090075ull,-48}, {4511250717721339976ull,-48}, {4520691536030760063ull,-48}, {9031942253752100039ull,-48}, {9041383072061520126ull,-48}, {453013235434018015ull,-47}, {624777711298205134ull,-47},
{906026470868036030ull,-47}, {1258996240905830355ull,-47}, {1802612123426651973ull,-47}, {1812052941736072060ull,-47}, {2889843888468295209ull,-47}, {4339486241857152857ull,-47}, {5779687776936590418ull,-47}, {8678972483714305714ull,-47},
{574192450369891007ull,-46}, {724821176694428824ull,-46}, {1148384900739782014ull,-46}, {1882646895743630925ull,-46}, {2165022711773866385ull,-46}, {3765293791487261850ull,-46}, {5930316503261128235ull,-46}, {7662334672680221343ull,-46},
{8396596667684070254ull,-46}, {8528343757389767897ull,-46}, {433004542354773277ull,-45}, {753058758297452370ull,-45}, {866009084709546554ull,-45}, {1186063300652225647ull,-45}, {1732018169419093108ull,-45}, {2372126601304451294ull,-45},
{4744253202608902588ull,-45}, {6156217156085316603ull,-45}, {6928072677676372432ull,-45}, {9488506405217805176ull,-45}, {527124156143169316ull,-44}, {602447006637961896ull,-44}, {771855521591055829ull,-44}, {1204894013275923792ull,-44},
{1543711043182111658ull,-44}, {2409788026551847584ull,-44}, {2805029295668940513ull,-44}, {5101968843798977971ull,-44}, {5365463023210373257ull,-44}, {9639152106207390336ull,-44}, {786920091690014345ull,-43}, {907436652481682473ull,-43},
{1411963953476414015ull,-43}, {1814873304963364946ull,-43}, {2662051677049213355ull,-43}, {3791622839830344567ull,-43}, {5324103354098426710ull,-43}, {7583245679660689134ull,-43}, {8396189275722934022ull,-43}, {9838825558678780045ull,-43},
{532410335409842671ull,-42}, {564785581390565606ull,-42}, {1064820670819685342ull,-42}, {1097195916800408277ull,-42}, {2129641341639370684ull,-42}, {2162016587620093619ull,-42}, {4259282683278741368ull,-42}, {4291657929259464303ull,-42},
{8518565366557482736ull,-42}, {8583315858518928606ull,-42}, {330877352895572376ull,-41}, {653330124918404848ull,-41}, {661754705791144752ull,-41}, {1300185200640665109ull,-41}, {1327385085209640335ull,-41}, {2600370401281330218ull,-41},
{2654770170419280670ull,-41}, {5287515817681333823ull,-41}, {8512090317361338149ull,-41}, {8563890710930494845ull,-41}, {530954034083856134ull,-40}, {1026422927394772747ull,-40}, {1660977748616942273ull,-40}, {1712778142186098969ull,-40},
{3321955497233884546ull,-40}, {3425556284372197938ull,-40}, {4957033049066248471ull,-40}, {6851112568744395876ull,-40}, {8641591301284229889ull,-40}, {9914066098132496942ull,-40}, {602230627163788874ull,-39}, {705831414302102266ull,-39},
{1032846924668575051ull,-39}, {1583277158263207229ull,-39}, {2065693849337150102ull,-39}, {2994939986867411761ull,-39}, {4131387698674300204ull,-39}, {5060633836204561863ull,-39}, {8262775397348600408ull,-39}, {9192021534878862067ull,-39},
{378815903935629481ull,-38}, {667633729237083431ull,-38}, {757631807871258962ull,-38}, {1335267458474166862ull,-38}, {2210102761987877077ull,-38}, {2444509753272779583ull,-38}, {3725366377730395001ull,-38}, {4420205523975754154ull,-38},
{6287079626645625837ull,-38}, {8840411047951508308ull,-38}, {696515511767228826ull,-37}, {699868242810968172ull,-37}, {1160300397771424819ull,-37}, {1167005859858903511ull,-37}, {2320600795542849638ull,-37}, {2334011719717807022ull,-37},
{4421881889497623827ull,-37}, {4641201591085699276ull,-37}, {8843763778995247654ull,-37}, {9063083480583323103ull,-37}, {513348469096167971ull,-36}, {650304659718996194ull,-36}, {1163653128815164165ull,-36}, {1300609319437992388ull,-36},
{1998801196727090887ull,-36}, {2327306257630328330ull,-36}, {4654612515260656660ull,-36}, {5257029957409550549ull,-36}, {9309225030521313320ull,-36}, {9911642472670207209ull,-36}, {465461251526065666ull,-35}, {640727216204975733ull,-35},
{930922503052131332ull,-35}, {1281454432409951466ull,-35}, {1861845006104262664ull,-35}, {2464262448253156553ull,-35}, {3723690012208525328ull,-35}, {5333649505521714237ull,-35}, {7447380024417050656ull,-35}, {9057339517730239565ull,-35},
{705279435815006514ull,-34}, {1106188467731041399ull,-34}, {1811467903546047913ull,-34}, {2214484724011765921ull,-34}, {3622935807092095826ull,-34}, {4428969448023531842ull,-34}, {6441945761802438759ull,-34}, {7245871614184191652ull,-34},
{9659756959879133454ull,-34}, {9668188114077865946ull,-34}, {563380433232131962ull,-33}, {886215447314642993ull,-33}, {1289232267780361001ull,-33}, {1609959493313188909ull,-33}, {2095265908711797017ull,-33}, {3219918986626377818ull,-33},
{4348787641640324865ull,-33}, {6439837973252755636ull,-33}, {8697575283280649730ull,-33}, {9822228361195230531ull,-33}, {355750852055667071ull,-32}, {610646401642182899ull,-32}, {869757528328064973ull,-32}, {1221292803284365798ull,-32},
{1739515056656129946ull,-32}, {2477609233091570759ull,-32}, {3479030113312259892ull,-32}, {5376800994185120669ull,-32}, {6958060226624519784ull,-32}, {9628948910455660537ull,-32}, {597480066452920483ull,-31}, {1089369649446159799ull,-31},
{1475928550925299787ull,-31}, {1616542660907820117ull,-31}, {3233085321815640234ull,-31}, {3935896069782660045ull,-31}, {6466170643631280468ull,-31}, {7168981391598300279ull,-31}, {9136539723571257543ull,-31}, {9980743987357543201ull,-31},
{787179213956532009ull,-30}, {843424857949540141ull,-30}, {1574358427913064018ull,-30}, {1686849715899080282ull,-30}, {2558397395845124489ull,-30}, {3148716855826128036ull,-30}, {4076510179765180375ull,-30}, {6297433711652256072ull,-30},
{8153020359530360750ull,-30}, {8743339819511364297ull,-30}, {438612102367230694ull,-29}, {539750340776412596ull,-29}, {815302035953036075ull,-29}, {1079500681552825192ull,-29}, {1630604071906072150ull,-29}, {2873165160649504557ull,-29},
{3261208143812144300ull,-29}, {5156010861318005567ull,-29}, {6522416287624288600ull,-29}, {9721702262655007587ull,-29}, {652241628762428860ull,-28}, {720767785733489319ull,-28}, {1304483257524857720ull,-28}, {1894802717505861267ull,-28},
{2608966515049715440ull,-28}, {4242872581050605163ull,-28}, {5217933030099430880ull,-28}, {7895425702120206779ull,-28}, {9571441972333616377ull,-28}, {9803436396005338338ull,-28}, {521793303009943088ull,-27}, {667267657794567981ull,-27},
{1043586606019886176ull,-27}, {1633906066000889723ull,-27}, {2087173212039772352ull,-27}, {3567182882413533207ull,-27}, {3874975673667790943ull,-27}, {7433736515238820175ull,-27}, {7749951347335581886ull,-27}, {9811858436847842313ull,-27},
{593688276318005137ull,-26}, {597057092655006727ull,-26}, {894743434898259693ull,-26}, {1486747303047764035ull,-26}, {1789486869796519386ull,-26}, {2680861488357777489ull,-26}, {3578973739593038772ull,-26}, {3871606857330789353ull,-26},
{6253097595276813081ull,-26}, {7157947479186077544ull,-26}, {598741500823507522ull,-25}, {891374618561258103ull,-25}, {1197483001647015044ull,-25}, {1484726013245563081ull,-25}, {2394966003294030088ull,-25}, {2671428802614173037ull,-25},
{4789932006588060176ull,-25}, {5044834381351392949ull,-25}, {9579864013176120352ull,-25}, {9791645538825832773ull,-25}, {487617370481530088ull,-24}, {525661590700110537ull,-24}, {975234740963060176ull,-24}, {991718536624830449ull,-24},
{1923832428474270273ull,-24}, {1950469481926120352ull,-24}, {3841334319076850079ull,-24}, {3847664856948540546ull,-24}, {7635725069121690467ull,-24}, {7682668638153700158ull,-24}, {386032593269192148ull,-23}, {388827788810885977ull,-23},
{765734648666693829ull,-23}, {772065186538384296ull,-23}, {1531469297333387658ull,-23}, {1532209444121690467ull,-23}, {3052497959288302809ull,-23}, {3062938594666775316ull,-23}, {6104995918576605618ull,-23}, {6113956260378472507ull,-23},
{611091709288302809ull,-22}, {611995601502712816ull,-22}, {1221607017214410007ull,-22}, {1222183418576605618ull,-22}, {2441982651362195611ull,-22}, {2443214034428820014ull,-22}, {4883965302724391222ull,-22}, {4884043883066624403ull,-22},
{9765703580342233181ull,-22}, {9767930605448782444ull,-22}, {488380814203992486ull,-21}, {488658522954210639ull,-21}, {976761628407984972ull,-21}, {976840208750218153ull,-21}, {1953203580342233181ull,-21}, {1953523256815969944ull,-21},
{3906407160684466362ull,-21}, {3906569676473736763ull,-21}, {7812662515789270401ull,-21}, {7812814321368932724ull,-21}, {390641787089407444ull,-20}, {390703580342233181ull,-20}, {781283574178814888ull,-20}, {781311793252825737ull,-20},
{1562528219074010849ull,-20}, {1562567148357629776ull,-20}, {3125038929283618927ull,-20}, {3125056438148021698ull,-20}, {6250017508864402771ull,-20}, {6250077858567237854ull,-20}, {312509145587682724ull,-19}, {312509927898645401ull,-19},
{625000782310962677ull,-19}, {625018291175365448ull,-19}, {1250001564621925354ull,-19}, {1250017508864402771ull,-19}, {2500003129243850708ull,-19}, {2500015944242477417ull,-19}, {5000006258487701416ull,-19}, {5000012814998626709ull,-19},
{500000685453414917ull,-18}, {500003129243850708ull,-18}, {1000001370906829834ull,-18}, {1000002443790435791ull,-18}, {2000001072883605957ull,-18}, {2000002741813659668ull,-18}, {4000001668930053711ull,-18}, {4000002145767211914ull,-18},
{8000000476837158203ull,-18}, {8000003337860107422ull,-18}, {400000309944152832ull,-17}, {400000452995300293ull,-17}, {800000143051147461ull,-17}, {800000619888305664ull,-17}, {1600000286102294922ull,-17}, {1600000476837158203ull,-17},
{3200000190734863281ull,-17}, {3200000572204589844ull,-17}, {6400000381469726562ull,-17}, {6400000381469726563ull,-17}, {320000019073486328ull,-16}, {320000133514404297ull,-16}, {640000038146972656ull,-16}, {640000114440917969ull,-16},
{1280000076293945312ull,-16}, {1280000076293945313ull,-16}, {2560000152587890624ull,-16}, {2560000152587890625ull,-16}, {2560000152587890626ull,-16}, {5120000305175781249ull,-16}, {5120000305175781250ull,-16}, {5120000305175781251ull,-16},
{512000030517578124ull,-15}, {512000030517578125ull,-15}, {512000030517578126ull,-15}, {1024000061035156249ull,-15}, {1024000061035156250ull,-15}, {1024000061035156251ull,-15}, {2048000122070312499ull,-15}, {2048000122070312500ull,-15},
{2048000122070312501ull,-15}, {4096000244140624999ull,-15}, {4096000244140625000ull,-15}, {4096000244140625001ull,-15}, {8192000488281249999ull,-15}, {8192000488281250000ull,-15}, {8192000488281250001ull,-15}, {409600024414062499ull,-14},
{409600024414062500ull,-14}, {409600024414062501ull,-14}, {819200048828124999ull,-14}, {819200048828125000ull,-14}, {819200048828125001ull,-14}, {1638400097656249999ull,-14}, {1638400097656250000ull,-14}, {1638400097656250001ull,-14},
{3276800195312499999ull,-14}, {3276800195312500000ull,-14}, {3276800195312500001ull,-14}, {6553600390624999999ull,-14}, {6553600390625000000ull,-14}, {6553600390625000001ull,-14}, {327680019531249999ull,-13}, {327680019531250000ull,-13},
{327680019531250001ull,-13}, {655360039062499999ull,-13}, {655360039062500000ull,-13}, {655360039062500001ull,-13}, {1310720078124999999ull,-13}, {1310720078125000000ull,-13}, {1310720078125000001ull,-13}, {2621440156249999999ull,-13},
{2621440156250000000ull,-13}, {2621440156250000001ull,-13}, {5242880312499999999ull,-13}, {5242880312500000000ull,-13}, {5242880312500000001ull,-13}, {524288031249999999ull,-12}, {524288031250000000ull,-12}, {524288031250000001ull,-12},
{1048576062499999999ull,-12}, {1048576062500000000ull,-12}, {1048576062500000001ull,-12}, {2097152124999999999ull,-12}, {2097152125000000000ull,-12}, {2097152125000000001ull,-12}, {4194304249999999999ull,-12}, {4194304250000000000ull,-12},
{4194304250000000001ull,-12}, {8388608499999999999ull,-12}, {8388608500000000000ull,-12}, {8388608500000000001ull,-12}, {419430424999999999ull,-11}, {419430425000000000ull,-11}, {419430425000000001ull,-11}, {838860849999999999ull,-11},
{838860850000000000ull,-11}, {838860850000000001ull,-11}, {1677721699999999999ull,-11}, {1677721700000000000ull,-11}, {1677721700000000001ull,-11}, {3355443399999999999ull,-11}, {3355443400000000000ull,-11}, {3355443400000000001ull,-11},
{6710886799999999999ull,-11}, {6710886800000000000ull,-11}, {6710886800000000001ull,-11}, {335544339999999999ull,-10}, {335544340000000000ull,-10}, {335544340000000001ull,-10}, {671088679999999999ull,-10}, {671088680000000000ull,-10},
{671088680000000001ull,-10}, {1342177359999999999ull,-10}, {1342177360000000000ull,-10}, {1342177360000000001ull,-10}, {2684354719999999999ull,-10}, {2684354720000000000ull,-10}, {2684354720000000001ull,-10}, {5368709439999999999ull,-10},
{5368709440000000000ull,-10}, {5368709440000000001ull,-10}, {536870943999999999ull,-9}, {536870944000000000ull,-9}, {536870944000000001ull,-9}, {1073741887999999999ull,-9}, {1073741888000000000ull,-9}, {1073741888000000001ull,-9},
{2147483775999999999ull,-9}, {2147483776000000000ull,-9}, {2147483776000000001ull,-9}, {4294967551999999999ull,-9}, {4294967552000000000ull,-9}, {4294967552000000001ull,-9}, {8589935103999999999ull,-9}, {8589935104000000000ull,-9},
{8589935104000000001ull,-9}, {429496755199999999ull,-8}, {429496755200000000ull,-8}, {429496755200000001ull,-8}, {858993510399999999ull,-8}, {858993510400000000ull,-8}, {858993510400000001ull,-8}, {1717987020799999999ull,-8},
{1717987020800000000ull,-8}, {1717987020800000001ull,-8}, {3435974041599999999ull,-8}, {3435974041600000000ull,-8}, {3435974041600000001ull,-8}, {6871948083199999999ull,-8}, {6871948083200000000ull,-8}, {6871948083200000001ull,-8},
{343597404159999999ull,-7}, {343597404160000000ull,-7}, {343597404160000001ull,-7}, {687194808319999999ull,-7}, {687194808320000000ull,-7}, {687194808320000001ull,-7}, {1374389616639999999ull,-7}, {1374389616640000000ull,-7},
{1374389616640000001ull,-7}, {2748779233279999999ull,-7}, {2748779233280000000ull,-7}, {2748779233280000001ull,-7}, {5497558466559999999ull,-7}, {5497558466560000000ull,-7}, {5497558466560000001ull,-7}, {549755846655999999ull,-6},
{549755846656000000ull,-6}, {549755846656000001ull,-6}, {1099511693311999999ull,-6}, {1099511693312000000ull,-6}, {1099511693312000001ull,-6}, {2199023386623999999ull,-6}, {2199023386624000000ull,-6}, {2199023386624000001ull,-6},
{4398046773247999999ull,-6}, {4398046773248000000ull,-6}, {4398046773248000001ull,-6}, {8796093546495999999ull,-6}, {8796093546496000000ull,-6}, {8796093546496000001ull,-6}, {439804677324799999ull,-5}, {439804677324800000ull,-5},
{439804677324800001ull,-5}, {879609354649599999ull,-5}, {879609354649600000ull,-5}, {879609354649600001ull,-5}, {1759218709299199999ull,-5}, {1759218709299200000ull,-5}, {1759218709299200001ull,-5}, {3518437418598399999ull,-5},
{3518437418598400000ull,-5}, {3518437418598400001ull,-5}, {7036874837196799999ull,-5}, {7036874837196800000ull,-5}, {7036874837196800001ull,-5}, {351843741859839999ull,-4}, {351843741859840000ull,-4}, {351843741859840001ull,-4},
{703687483719679999ull,-4}, {703687483719680000ull,-4}, {703687483719680001ull,-4}, {1407374967439359999ull,-4}, {1407374967439360000ull,-4}, {1407374967439360001ull,-4}, {2814749934878719999ull,-4}, {2814749934878720000ull,-4},
{2814749934878720001ull,-4}, {5629499869757439999ull,-4}, {5629499869757440000ull,-4}, {5629499869757440001ull,-4}, {562949986975743999ull,-3}, {562949986975744000ull,-3}, {562949986975744001ull,-3}, {1125899973951487999ull,-3},
{1125899973951488000ull,-3}, {1125899973951488001ull,-3}, {2251799947902975999ull,-3}, {2251799947902976000ull,-3}, {2251799947902976001ull,-3}, {4503599895805951999ull,-3}, {4503599895805952000ull,-3}, {4503599895805952001ull,-3},
{9007199791611903999ull,-3}, {9007199791611904000ull,-3}, {9007199791611904001ull,-3}, {450359989580595199ull,-2}, {450359989580595200ull,-2}, {450359989580595201ull,-2}, {900719979161190399ull,-2}, {900719979161190400ull,-2},
{900719979161190401ull,-2}, {1801439958322380799ull,-2}, {1801439958322380800ull,-2}, {1801439958322380801ull,-2}, {3602879916644761599ull,-2}, {3602879916644761600ull,-2}, {3602879916644761601ull,-2}, {7205759833289523199ull,-2},
{7205759833289523200ull,-2}, {7205759833289523201ull,-2}, {360287991664476159ull,-1}, {360287991664476160ull,-1}, {360287991664476161ull,-1}, {720575983328952319ull,-1}, {720575983328952320ull,-1}, {720575983328952321ull,-1},
{1441151966657904639ull,-1}, {1441151966657904640ull,-1}, {1441151966657904641ull,-1}, {2882303933315809279ull,-1}, {2882303933315809280ull,-1}, {2882303933315809281ull,-1}, {5764607866631618559ull,-1}, {5764607866631618560ull,-1},
{5764607866631618561ull,-1}, {576460786663161855ull,0}, {576460786663161856ull,0}, {576460786663161857ull,0}, {1152921573326323711ull,0}, {1152921573326323712ull,0}, {1152921573326323713ull,0}, {2305843146652647423ull,0},
{2305843146652647424ull,0}, {2305843146652647425ull,0}, {4611686293305294847ull,0}, {4611686293305294848ull,0}, {4611686293305294849ull,0}, {9223372586610589695ull,0}, {9223372586610589696ull,0}, {9223372586610589697ull,0},
{461168629330529485ull,1}, {461168794257273651ull,1}, {461168849232855040ull,1}, {922337368612221747ull,1}, {922337478563384525ull,1}, {922337698465710080ull,1}, {1844674517322117939ull,1}, {1844675177029094605ull,1},
{1844675396931420160ull,1}, {3689349474448886989ull,1}, {3689349914253538099ull,1}, {3689350793862840320ull,1}, {7378698069288471757ull,1}, {7378700708116378419ull,1}, {7378701587725680640ull,1}, {368935035405818921ull,2},
{368935079386284032ull,2}, {368935123366749143ull,2}, {737870158772568064ull,2}, {737871214303730729ull,2}, {737871302264660951ull,2}, {1475740317545136128ull,2}, {1475741373076298793ull,2}, {1475743660060484567ull,2},
{2951479579559109591ull,2}, {2951480635090272256ull,2}, {2951481690621434921ull,2}, {5902961270180544512ull,2}, {5902969010742404055ull,2}, {5902971121804729385ull,2}, {590301193567635243ull,3}, {590301404673867776ull,3},
{590301615780100309ull,3}, {1180593802148480811ull,3}, {1180594224360945877ull,3}, {1180602809347735552ull,3}, {2361196611496216363ull,3}, {2361205618695471104ull,3}, {2361214625894725845ull,3}, {4722402230191687467ull,3},
{4722411237390942208ull,3}, {4722420244590196949ull,3}, {9444813467582629675ull,3}, {9444822474781884416ull,3}, {9444831481981139157ull,3}, {472242925178945169ull,4}, {472246359173661039ull,4}, {472262234362347520ull,4},
{944508593536008559ull,4}, {944524468724695040ull,4}, {944540343913381521ull,4}, {1888962693516525935ull,4}, {1888994443893898897ull,4}, {1889048937449390080ull,4}, {3778043381343288977ull,4}, {3778097874898780160ull,4},
{3778152368454271343ull,4}, {7555859781265358481ull,4}, {7555968768376340847ull,4}, {7556195749797560320ull,4}, {377792538703305187ull,5}, {377809787489878016ull,5}, {377827036276450845ull,5}, {755619574979756032ull,5},
{755743063681538531ull,5}, {755777561254684189ull,5}, {1511239149959512064ull,5}, {1511397136234440221ull,5}, {1511644113638005219ull,5}, {3022478299919024128ull,5}, {3022883263597517283ull,5}, {3023199236147373597ull,5},
{6044956599838048256ull,5}, {6045361563516541411ull,5}, {6046803435973240349ull,5}, {605090207192211769ull,6}, {605171199927910400ull,6}, {605252192663609031ull,6}, {1210261407120122169ull,6}, {1210342399855820800ull,6},
{1210423392591519431ull,6}, {2420603806975942969ull,6}, {2420684799711641600ull,6}, {2420765792447340231ull,6}, {4836785007060214073ull,6}, {4836946992531611335ull,6}, {4841369599423283200ull,6}, {9678316591954894535ull,6},
{9682739198846566400ull,6}, {9687161805738238265ull,6}, {484136959942328320ull,7}, {485021481320662693ull,7}, {487756038191364443ull,7}, {967389398506322267ull,7}, {968273919884656640ull,7}, {969158441262991013ull,7},
{1935663318390978907ull,7}, {1936547839769313280ull,7}, {1937432361147647653ull,7}, {3872211158160292187ull,7}, {3873095679538626560ull,7}, {3873980200916960933ull,7}, {7745306837698918747ull,7}, {7746191359077253120ull,7},
{7747075880455587493ull,7}, {387309567953862656ull,8}, {394338423081988575ull,8}, {398295111335218721ull,8}, {774619135907725312ull,8}, {781647991035851231ull,8}, {803619077798563361ull,8}, {1549238271815450624ull,8},
{1578238213706288673ull,8}, {1592295923962540511ull,8}, {3098476543630901248ull,8}, {3141534195777991135ull,8}, {3199534079559667233ull,8}, {6196953087261802496ull,8}, {6240010739408892383ull,8}, {6442125811266424353ull,8},
{628306839155598227ull,9}, {648518346341351424ull,9}, {668729853527104621ull,9}, {1297036692682702848ull,9}, {1420940373572805523ull,9}, {1461363387944311917ull,9}, {2594073385365405696ull,9}, {2717977066255508371ull,9},
{3046630456778726509ull,9}, {5064243089840708717ull,9}, {5188146770730811392ull,9}, {5312050451620914067ull,9}, {9918467194497134985ull,9}, {9977332673297725830ull,9}, {839910392277114697ull,10}, {864691128455135232ull,10},
{889471864633155767ull,10}, {1704601520732249929ull,10}, {1729382256910270464ull,10}, {1754162993088290999ull,10}, {2281062273035673417ull,10}, {2330623745391714487ull,10}, {3458764513820540928ull,10}, {4562124546071346834ull,10},
{5789388259212255415ull,10}, {6917529027641081856ull,10}, {8095231268425949367ull,10}, {9124249092142693668ull,10}, {401447926083932667ull,11}, {786166609172143058ull,11}, {1138053062900034655ull,11}, {1157877651842451083ull,11},
{2276106125800069310ull,11}, {2315755303684902166ull,11}, {3404246894228895751ull,11}, {5779475964741047201ull,11}, {8035757501598700083ull,11}, {9263021214739608664ull,11}, {455221225160013862ull,12}, {494870403044846718ull,12},
{712568721153645435ull,12}, {910442450320027724ull,12}, {1820884900640055448ull,12}, {2098056985576103449ull,12}, {2968850258011298317ull,12}, {4869033514421019477ull,12}, {5264780972753784055ull,12}, {9738067028842038954ull,12},
{570054976922916348ull,13}, {862937868909784695ull,13}, {1052956194550756811ull,13}, {1813029497114645275ull,13}, {2105912389101513622ull,13}, {3626058994229290550ull,13}, {4211824778203027244ull,13}, {7925037531727393679ull,13},
{8423649556406054488ull,13}, {9445184136855170607ull,13}, {690350295127827756ull,14}, {725211798845858110ull,14}, {1380700590255655512ull,14}, {1450423597691716220ull,14}, {2158204644678559153ull,14}, {2761401180511311024ull,14},
{3573766738652245019ull,14}, {6265444911727495335ull,14}, {7147533477304490038ull,14}, {9560319620635497522ull,14}, {347973320012438981ull,15}, {580169439076686488ull,15}, {1160338878153372976ull,15}, {1253088982345499067ull,15},
{1578035205601872665ull,15}, {2506177964690998134ull,15}, {3156070411203745330ull,15}, {4084213170292870799ull,15}, {5754998480086869555ull,15}, {8725568682906362703ull,15}, {519785613776624845ull,16}, {631214082240749066ull,16},
{1150999696017373911ull,16}, {1262428164481498132ull,16}, {2413427860498872043ull,16}, {2524856328962996264ull,16}, {4826855720997744086ull,16}, {4938284189461868307ull,16}, {9765139910459612393ull,16}, {9876568378923736614ull,16},
{415828491021299876ull,17}, {527256959485424097ull,17}, {943085450506723973ull,17}, {1054513918970848194ull,17}, {1886170901013447946ull,17}, {1997599369477572167ull,17}, {3883770270491020113ull,17}, {3995198738955144334ull,17},
{7767540540982040226ull,17}, {7990397477910288668ull,17}, {354948486509864745ull,18}, {466376954973988966ull,18}, {709896973019729490ull,18}, {821325441483853711ull,18}, {1419793946039458980ull,18}, {1642650882967707422ull,18},
{2839587892078917960ull,18}, {4816524180438998045ull,18}, {5679175784157835920ull,18}, {9633048360877996090ull,18}, {567917578415783592ull,19}, {963304836087799609ull,19}, {1135835156831567184ull,19}, {1926609672175599218ull,19},
{2271670313663134368ull,19}, {3853219344351198436ull,19}, {7706438688702396872ull,19}, {8446886587861948039ull,19}, {9086681254652537472ull,19}, {9489294184128384408ull,19}, {602423642564537107ull,20}, {790774515344032034ull,20},
{1204847285129074214ull,20}, {1393198157908569141ull,20}, {2409694570258148428ull,20}, {2786396315817138282ull,20}, {4078941241356745689ull,20}, {6313240530793827731ull,20}, {8170838074671919919ull,20}, {9651733872991022253ull,20},
{409189683331517423ull,21}, {630028493883539919ull,21}, {818379366663034846ull,21}, {1260056987767079838ull,21}, {1636758733326069692ull,21}, {2520113975534159676ull,21}, {2974747188596633209ull,21}, {5338998229123825527ull,21},
{8612515695775964911ull,21}, {9210056251886977261ull,21}, {550742092458339656ull,22}, {1062617409041393689ull,22}, {1135327056610923465ull,22}, {2125234818082787378ull,22}, {2270654113221846930ull,22}, {4216626764471330603ull,22},
{4575151098137938013ull,22}, {8433253528942661206ull,22}, {9150302196275876026ull,22}, {9662177512858930059ull,22}, {454130822644369386ull,23}, {774793161271899467ull,23}, {908261645288738772ull,23}, {1706956428805078733ull,23},
{1816523290577477544ull,23}, {3475676474893675289ull,23}, {4144921897738009121ull,23}, {4527347853649057025ull,23}, {8289843795476018242ull,23}, {9054695707298114050ull,23}, {478032444888809880ull,24}, {618650103796525477ull,24},
{905469570729811405ull,24}, {1237300207593050954ull,24}, {1810939141459622810ull,24}, {2142769778322862359ull,24}, {3621878282919245620ull,24}, {5382222105331060075ull,24}, {7243756565838491240ull,24}, {9004100388250305695ull,24},
{724375656583849124ull,25}, {1076444421066212015ull,25}, {1448751313167698248ull,25}, {1800820077650061139ull,25}, {2897502626335396496ull,25}, {3601640155300122278ull,25}, {5795005252670792992ull,25}, {7203280310600244556ull,25},
{9315692897494421902ull,25}, {9910619193406264897ull,25}, {666104780258850551ull,26}, {861155536852969612ull,26}, {1332209560517701102ull,26}, {1722311073705939224ull,26}, {2545433861853033605ull,26}, {3444622147411878448ull,26},
{5090867723706067210ull,26}, {7008229554006125495ull,26}, {8026403098747338937ull,26}, {8264373617112076135ull,26}, {509086772370606721ull,27}, {641330325809428250ull,27}, {1018173544741213442ull,27}, {1401645910801225099ull,27},
{2419819455542438541ull,27}, {2803291821602450198ull,27}, {4839638911084877082ull,27}, {5223111277144888739ull,27}, {6043089186290723773ull,27}, {9679277822169754164ull,27}, {642656155235073543ull,28}, {891233309004973085ull,28},
{1782466618009946170ull,28}, {2165938984069957827ull,28}, {3948405602079903997ull,28}, {4331877968139915654ull,28}, {7896811204159807994ull,28}, {8663755936279831308ull,28}, {9658064551359429476ull,28}, {9814173034459866279ull,28},
{712986647203978468ull,29}, {820902817036068160ull,29}, {1150417098180034971ull,29}, {1425973294407956936ull,29}, {2576390392587991907ull,29}, {2851946588815913872ull,29}, {5428336981403905779ull,29}, {5703893177631827744ull,29},
{7476678068126844696ull,29}, {9754449177896123698ull,29}, {390391292037248939ull,30}, {711833492874438921ull,30}, {780782584074497878ull,30}, {1423666985748877842ull,30}, {1506453928903411363ull,30}, {2902445210743340077ull,30},
{3031118158507141615ull,30}, {5804890421486680154ull,30}, {7292893881117458765ull,30}, {7513338838099796337ull,30}, {606223631701428323ull,31}, {1072800101504401002ull,31}, {1458578776223491753ull,31}, {1679023733205829325ull,31},
{2917157552446983506ull,31}, {3358047466411658650ull,31}, {5834315104893967012ull,31}, {7623561316590965123ull,31}, {9853697442252638378ull,31}, {9905070553929233448ull,31}, {671609493282331730ull,32}, {676746804449991237ull,32},
{1343218986564663460ull,32}, {1348356297732322967ull,32}, {2686437973129326920ull,32}, {2696712595464645934ull,32}, {4485958807161644045ull,32}, {5393425190929291868ull,32}, {8971917614323288090ull,32}, {9879383998090935913ull,32},
{537287594625865384ull,33}, {724945644780586357ull,33}, {897191761432328809ull,33}, {1449891289561172714ull,33}, {1794383522864657618ull,33}, {2701849906632305441ull,33}, {3588767045729315236ull,33}, {4851000285135766977ull,33},
{7177534091458630472ull,33}, {9702000570271533954ull,33}, {686386572516110261ull,34}, {1174840472542180535ull,34}, {1262233239406451741ull,34}, {2349680945084361070ull,34}, {4054073806993887935ull,34}, {4275153618245425497ull,34},
{6357460474555253855ull,34}, {8108147613987775870ull,34}, {9590525032420811781ull,34}, {9990157811772943042ull,34}, {681757144763810746ull,35}, {810814761398777587ull,35}, {1271492094911050771ull,35}, {1621629522797555174ull,35},
{2893121617708605945ull,35}, {3243259045595110348ull,35}, {5786243235417211890ull,35}, {6136380663303716293ull,35}, {7685072062923318385ull,35}, {9821799331401901765ull,35}, {471787960117792020ull,36}, {578624323541721189ull,36},
{1157248647083442378ull,36}, {1507386074969946781ull,36}, {2314497294166884756ull,36}, {2664634722053389159ull,36}, {4628994588333769512ull,36}, {4979132016220273915ull,36}, {9257989176667539024ull,36}, {9958264032440547830ull,36},
{645688975357550380ull,37}, {995826403244054783ull,37}, {1291377950715100760ull,37}, {1991652806488109566ull,37}, {2582755901430201520ull,37}, {3983305612976219132ull,37}, {5165511802860403040ull,37}, {9608126604554043427ull,37},
{9863836484727680059ull,37}, {9939580853184646366ull,37}, {516551180286040304ull,38}, {700274855773008806ull,38}, {1033102360572080608ull,38}, {1825239054088573665ull,38}, {2066204721144161216ull,38}, {2858341414660654273ull,38},
{4924546135804815489ull,38}, {5716682829321308546ull,38}, {8035850918302168668ull,38}, {9849092271609630978ull,38},
};
static const uint64_t DOUBLES[] = {
0x30f925fc31016ull, 0x30f925fc31017ull, 0xf4ddbdecf5070ull, 0xf4ddbdecf5071ull, 0x133b68794c8a7aull, 0x133b68794c8a7bull, 0x1d243f646eaf51ull, 0x1d243f646eaf52ull,
0x1d82ebab1a2dcfull, 0x1d82ebab1a2dd0ull, 0x1dc0f644627f56ull, 0x2144a22c0ded75ull, 0x2144a22c0ded76ull, 0x2c8788847adf4dull, 0x2d243f646eaf51ull, 0x2d243f646eaf52ull,
0x2dc0f644627f56ull, 0x2e9bb7bd9ea0e1ull, 0x2f971ae43def63ull, 0x2f971ae43def64ull, 0x30493f056e9ef3ull, 0x3650b8b349df80ull, 0x3650b8b349df81ull, 0x3c8788847adf4dull,
0x3d243f646eaf51ull, 0x3d243f646eaf52ull, 0x3f971ae43def63ull, 0x3f971ae43def64ull, 0x40493f056e9ef3ull, 0x46ed6f933daf85ull, 0x4ba98e49c0b559ull, 0x4ba98e49c0b55aull,
0x4c8788847adf4dull, 0x4f971ae43def63ull, 0x4f971ae43def64ull, 0x50493f056e9ef3ull, 0x53dddd337a9f6eull, 0x53dddd337a9f6full, 0x56ed6f933daf85ull, 0x59ba7c0bdc4769ull,
0x5ba98e49c0b559ull, 0x5ba98e49c0b55aull, 0x5f971ae43def63ull, 0x5f971ae43def64ull, 0x60493f056e9ef3ull, 0x6853f5cf8cfb77ull, 0x69ba7c0bdc4769ull, 0x6a0bb668f351e3ull,
0x6f971ae43def63ull, 0x6f971ae43def64ull, 0x70493f056e9ef3ull, 0x785e7669719043ull, 0x785e7669719044ull, 0x79ba7c0bdc4769ull, 0x7d4f1a39e847e4ull, 0x7d4f1a39e847e5ull,
0x7f971ae43def63ull, 0x7f971ae43def64ull, 0x80493f056e9ef3ull, 0x82b9dcde4fcbafull, 0x863a2c7516098cull, 0x88662a78cbbf58ull, 0x89ba7c0bdc4769ull, 0x8ade7c61071b28ull,
0x8ade7c61071b29ull, 0x90493f056e9ef3ull, 0x92b9dcde4fcbafull, 0x97fa544079287aull, 0x97fa544079287bull, 0x99ba7c0bdc4769ull, 0x9ade7c61071b28ull, 0x9ade7c61071b29ull,
0x9c7c5441d47e9full, 0xa0493f056e9ef3ull, 0xa2b9dcde4fcbafull, 0xa8759297801d81ull, 0xab7aa3d73f6657ull, 0xab7aa3d73f6658ull, 0xac7c5441d47e9full, 0xae87692658de42ull,
0xae87692658de43ull, 0xb26bc92333a617ull, 0xb26bc92333a618ull, 0xb35604548816deull, 0xba78f36caa4e10ull, 0xbb7aa3d73f6657ull, 0xbb7aa3d73f6658ull, 0xbc7c5441d47e9full,
0xc26bc92333a617ull, 0xc26bc92333a618ull, 0xc35604548816deull, 0xc6f3367d398637ull, 0xc6f3367d398638ull, 0xcb7aa3d73f6657ull, 0xcb7aa3d73f6658ull, 0xcc7c5441d47e9full,
0xd26bc92333a617ull, 0xd26bc92333a618ull, 0xd35604548816deull, 0xd4af7fd0369627ull, 0xd4af7fd0369628ull, 0xd4dc66fc14d2d3ull, 0xd4dc66fc14d2d4ull, 0xdb7aa3d73f6657ull,
0xdb7aa3d73f6658ull, 0xe028127630b607ull, 0xe028127630b608ull, 0xe2d90626eaa244ull, 0xe2d90626eaa245ull, 0xe82b8569aa1c95ull, 0xe82b8569aa1c96ull, 0xeb7aa3d73f6657ull,
0xeb7aa3d73f6658ull, 0xec7c5441d47e9full, 0xf028127630b607ull, 0xf028127630b608ull, 0xf5d15b26b80e2full, 0xf5d15b26b80e30ull, 0xf9d314a074c176ull, 0xf9d314a074c177ull,
0xfb7aa3d73f6657ull, 0xfb7aa3d73f6658ull, 0xfc7c5441d47e9full, 0xfec9c244d4b019ull, 0xfec9c244d4b01aull, 0x102fcb6ce74621bull, 0x102fcb6ce74621cull, 0x105d15b26b80e2full,
0x105d15b26b80e30ull, 0x10683f632df77b4ull, 0x10683f632df77b5ull, 0x10aa6dc3bda13e7ull, 0x10b7aa3d73f6657ull, 0x10b7aa3d73f6658ull, 0x10ec9c244d4b019ull, 0x10ec9c244d4b01aull,
0x112d90626eaa244ull, 0x112d90626eaa245ull, 0x11683f632df77b4ull, 0x11683f632df77b5ull, 0x11aa6dc3bda13e7ull, 0x11b7aa3d73f6657ull, 0x11b7aa3d73f6658ull, 0x11ec9c244d4b019ull,
0x11ec9c244d4b01aull, 0x1246708fa963825ull, 0x1246708fa963826ull, 0x124ae7e2ce50cfcull, 0x124ae7e2ce50cfdull, 0x12683f632df77b4ull, 0x12683f632df77b5ull, 0x12aa6dc3bda13e7ull,
0x12ec9c244d4b019ull, 0x12ec9c244d4b01aull, 0x130dd3b8c41a10cull, 0x130dd3b8c41a10dull, 0x1346708fa963825ull, 0x1346708fa963826ull, 0x135993a2fe24258ull, 0x135993a2fe24259ull,
0x1360e983160dd06ull, 0x1360e983160dd07ull, 0x13683f632df77b4ull, 0x13683f632df77b5ull, 0x13aa6dc3bda13e7ull, 0x141ee4a23ed6ce8ull, 0x141ee4a23ed6ce9ull, 0x1460e983160dd06ull,
0x1460e983160dd07ull, 0x14683f632df77b4ull, 0x14683f632df77b5ull, 0x14aa6dc3bda13e7ull, 0x14f04714593fd70ull, 0x14f04714593fd71ull, 0x15439202b66724eull, 0x15439202b66724full,
0x1560e983160dd06ull, 0x1560e983160dd07ull, 0x1562befb1c083b2ull, 0x156494732202a5dull, 0x156494732202a5eull, 0x15683f632df77b4ull, 0x15683f632df77b5ull, 0x15aa6dc3bda13e7ull,
0x1655e8b2f22f501ull, 0x1655e8b2f22f502ull, 0x1662befb1c083b2ull, 0x166494732202a5dull, 0x166494732202a5eull, 0x16683f632df77b4ull, 0x16683f632df77b5ull, 0x1686965f6cd4bccull,
0x1686965f6cd4bcdull, 0x170a0f3c55062c5ull, 0x170a0f3c55062c6ull, 0x175f140b101365bull, 0x1762befb1c083b2ull, 0x176494732202a5dull, 0x176494732202a5eull, 0x17683f632df77b4ull,
0x17683f632df77b5ull, 0x17df461e33d6cb9ull, 0x180a0f3c55062c5ull, 0x180a0f3c55062c6ull, 0x18439202b66724eull, 0x18439202b66724full, 0x185f140b101365bull, 0x186494732202a5dull,
0x186494732202a5eull, 0x18683f632df77b4ull, 0x18683f632df77b5ull, 0x18716abb4bdb90eull, 0x190a0f3c55062c5ull, 0x190a0f3c55062c6ull, 0x190be4b45b00971ull, 0x19716abb4bdb90eull,
0x19bb6eb9e30a49eull, 0x19bb6eb9e30a49full, 0x19e8b155498886aull, 0x19e8b155498886bull, 0x19fc47605c54ed5ull, 0x19fc47605c54ed6ull, 0x1a0a0f3c55062c5ull, 0x1a0a0f3c55062c6ull,
0x1a0be4b45b00971ull, 0x1a15100c78e4acaull, 0x1a15100c78e4acbull, 0x1abb6eb9e30a49eull, 0x1abb6eb9e30a49full, 0x1ad210079649684ull, 0x1ad210079649685ull, 0x1afc47605c54ed5ull,
0x1afc47605c54ed6ull, 0x1b15100c78e4acaull, 0x1b15100c78e4acbull, 0x1b20b08a08454abull, 0x1b20b08a08454acull, 0x1bbb6eb9e30a49eull, 0x1bbb6eb9e30a49full, 0x1bcdc56a1ed2751ull,
0x1bcdc56a1ed2752ull, 0x1be506653d93b13ull, 0x1be506653d93b14ull, 0x1bfc47605c54ed5ull, 0x1bfc47605c54ed6ull, 0x1c20b08a08454abull, 0x1c20b08a08454acull, 0x1c6e0fa1f5a7ca5ull,
0x1cbb6eb9e30a49eull, 0x1cbb6eb9e30a49full, 0x1ccdc56a1ed2751ull, 0x1ccdc56a1ed2752ull, 0x1ce506653d93b13ull, 0x1ce506653d93b14ull, 0x1d20b08a08454abull, 0x1d20b08a08454acull,
0x1d6e0fa1f5a7ca5ull, 0x1d82db77a2ec7dfull, 0x1d82db77a2ec7e0ull, 0x1dbb6eb9e30a49eull, 0x1dbb6eb9e30a49full, 0x1dd965e7ae33132ull, 0x1dd965e7ae33133ull, 0x1de506653d93b13ull,
0x1de506653d93b14ull, 0x1e0b6b47e1ae337ull, 0x1e20b08a08454abull, 0x1e20b08a08454acull, 0x1e51c600d598e45ull, 0x1e51c600d598e46ull, 0x1ec08c98fdb97f7ull, 0x1ec08c98fdb97f8ull,
0x1edf362675e3623ull, 0x1ee506653d93b13ull, 0x1ee506653d93b14ull, 0x1f059b0919fde46ull, 0x1f059b0919fde47ull, 0x1f20b08a08454abull, 0x1f20b08a08454acull, 0x1f393b456eef178ull,
0x1f393b456eef179ull, 0x1fbabc5a3609307ull, 0x1fdf362675e3623ull, 0x1fe506653d93b13ull, 0x1fe506653d93b14ull, 0x20059b0919fde46ull, 0x20059b0919fde47ull, 0x202cf5e7bb9a312ull,
0x20393b456eef178ull, 0x20393b456eef179ull, 0x206a50bc3c42b12ull, 0x206a50bc3c42b13ull, 0x20df362675e3623ull, 0x20ee99b3c4631abull, 0x21059b0919fde46ull, 0x21059b0919fde47ull,
0x212cf5e7bb9a312ull, 0x21393b456eef178ull, 0x21393b456eef179ull, 0x216a50bc3c42b12ull, 0x216a50bc3c42b13ull, 0x21cfb6394cbc301ull, 0x21cfb6394cbc302ull, 0x21fce7e2fc2f71cull,
0x22059b0919fde46ull, 0x22059b0919fde47ull, 0x222cf5e7bb9a312ull, 0x2232c626834a802ull, 0x2232c626834a803ull, 0x226a50bc3c42b12ull, 0x226a50bc3c42b13ull, 0x22f717a4347f22bull,
0x22f717a4347f22cull, 0x232725a8f3e9e21ull, 0x232725a8f3e9e22ull, 0x232cf5e7bb9a312ull, 0x234436e2da5b6d4ull, 0x23b58e362b293d7ull, 0x23c9411a611798bull, 0x23c9411a611798cull,
0x242725a8f3e9e21ull, 0x242725a8f3e9e22ull, 0x242cf5e7bb9a312ull, 0x24bc7f88e248439ull, 0x24c9411a611798bull, 0x24c9411a611798cull, 0x252cf5e7bb9a312ull, 0x2537eaf8e0dfe0full,
0x25783361aa80bd6ull, 0x25783361aa80bd7ull, 0x25a0ba3e05cc2b1ull, 0x25c9411a611798bull, 0x25c9411a611798cull, 0x262cf5e7bb9a312ull, 0x26783361aa80bd6ull, 0x26783361aa80bd7ull,
0x26a0ba3e05cc2b1ull, 0x26c9411a611798bull, 0x26c9411a611798cull, 0x26fd3d99313ce8eull, 0x26fd5306be8046aull, 0x26fd5306be8046bull, 0x272cf5e7bb9a312ull, 0x27783361aa80bd6ull,
0x27783361aa80bd7ull, 0x27a0ba3e05cc2b1ull, 0x27bac3343480820ull, 0x27bac3343480821ull, 0x27c9411a611798bull, 0x27c9411a611798cull, 0x27fd3d99313ce8eull, 0x2824484056b3697ull,
0x2824484056b3698ull, 0x282d4b9df0a7a84ull, 0x28783361aa80bd6ull, 0x28783361aa80bd7ull, 0x287dee32e4edaeaull, 0x287dee32e4edaebull, 0x289a9449090e64eull, 0x289a9449090e64full,
0x28c9411a611798bull, 0x28c9411a611798cull, 0x2924484056b3697ull, 0x2924484056b3698ull, 0x292d4b9df0a7a84ull, 0x294e3dd1009a137ull, 0x29783361aa80bd6ull, 0x29783361aa80bd7ull,
0x29a397a6a302a3bull, 0x29e5e73085384efull, 0x29e5e73085384f0ull, 0x2a07a22a3292b33ull, 0x2a07a22a3292b34ull, 0x2a24484056b3697ull, 0x2a24484056b3698ull, 0x2a4e3dd1009a137ull,
0x2a783361aa80bd6ull, 0x2a783361aa80bd7ull, 0x2ae5e73085384efull, 0x2ae5e73085384f0ull, 0x2af61413a834bb5ull, 0x2b0fa9251566e39ull, 0x2b24484056b3697ull, 0x2b24484056b3698ull,
0x2b511b399dd08c1ull, 0x2b76c4ad5be5811ull, 0x2b76c4ad5be5812ull, 0x2bb6c80d95b3ed4ull, 0x2bb6c80d95b3ed5ull, 0x2bf61413a834bb5ull, 0x2c0fa9251566e39ull, 0x2c24484056b3697ull,
0x2c24484056b3698ull, 0x2c511b399dd08c1ull, 0x2c74ead54af96feull, 0x2c76c4ad5be5811ull, 0x2c76c4ad5be5812ull, 0x2d0fa9251566e39ull, 0x2d76c4ad5be5811ull, 0x2d76c4ad5be5812ull,
0x2dac1cd2e166db4ull, 0x2dd3ff62aea3dd1ull, 0x2e0fa9251566e39ull, 0x2e76c4ad5be5811ull, 0x2e76c4ad5be5812ull, 0x2ed3ff62aea3dd1ull, 0x2ee5b78e861a513ull, 0x2efe993fe698f2eull,
0x2f0fa9251566e39ull, 0x2f1d3da82aff479ull, 0x2f30622f599bb7dull, 0x2f76c4ad5be5811ull, 0x2f76c4ad5be5812ull, 0x2f8721327dffeb3ull, 0x2f8721327dffeb4ull, 0x2fd2258a9db7cbdull,
0x2fd2258a9db7cbeull, 0x300fa9251566e39ull, 0x3030622f599bb7dull, 0x305fec760b70ee6ull, 0x305fec760b70ee7ull, 0x3076c4ad5be5811ull, 0x3076c4ad5be5812ull, 0x308f4f750f0d204ull,
0x308f4f750f0d205ull, 0x31077ae28459ae8ull, 0x310fa9251566e39ull, 0x3130622f599bb7dull, 0x319366965793badull, 0x319fabfa31278a6ull, 0x319fabfa31278a7ull, 0x31f81d8db83eca5ull,
0x3200d7e8a7c6813ull, 0x3200d7e8a7c6814ull, 0x32077ae28459ae8ull, 0x3230622f599bb7dull, 0x32943fde88ed411ull, 0x329fabfa31278a6ull, 0x329fabfa31278a7ull, 0x32f81d8db83eca5ull,
0x33077ae28459ae8ull, 0x3330622f599bb7dull, 0x33e18ab2d23df60ull, 0x33e18ab2d23df61ull, 0x33f81d8db83eca5ull, 0x33fa821e9e12585ull, 0x33fa821e9e12586ull, 0x33fce6af83e5e66ull,
0x34077ae28459ae8ull, 0x3449599b25701a2ull, 0x34e18ab2d23df60ull, 0x34e18ab2d23df61ull, 0x34fa821e9e12585ull, 0x34fa821e9e12586ull, 0x34fce6af83e5e66ull, 0x350008900f6c5d5ull,
0x350008900f6c5d6ull, 0x3549599b25701a2ull, 0x357dad03a2ec6ccull, 0x357dad03a2ec6cdull, 0x35e18ab2d23df60ull, 0x35e18ab2d23df61ull, 0x35fa821e9e12585ull, 0x35fa821e9e12586ull,
0x35ff54b94cf4520ull, 0x360008900f6c5d5ull, 0x360008900f6c5d6ull, 0x363cdde53f85e8full, 0x363cdde53f85e90ull, 0x3649599b25701a2ull, 0x36e18ab2d23df60ull, 0x36e18ab2d23df61ull,
0x36fa821e9e12585ull, 0x36fa821e9e12586ull, 0x36fd4e5bd012f85ull, 0x373a795459b25afull, 0x373cdde53f85e8full, 0x373cdde53f85e90ull, 0x376c46f3972904dull, 0x379bb001eecc20aull,
0x379bb001eecc20bull, 0x37be9d5a60850b5ull, 0x37be9d5a60850b6ull, 0x383cdde53f85e8full, 0x383cdde53f85e90ull, 0x386c46f3972904dull, 0x389bb001eecc20aull, 0x389bb001eecc20bull,
0x38be9d5a60850b5ull, 0x38be9d5a60850b6ull, 0x38da1a8f6c5f167ull, 0x390008900f6c5d5ull, 0x390008900f6c5d6ull, 0x393cdde53f85e8full, 0x393cdde53f85e90ull, 0x396c46f3972904dull,
0x399bb001eecc20aull, 0x399bb001eecc20bull, 0x39da1a8f6c5f167ull, 0x39ff023ba23515cull, 0x3a14f5967adaba1ull, 0x3a14f5967adaba2ull, 0x3a3cdde53f85e8full, 0x3a3cdde53f85e90ull,
0x3a6c46f3972904dull, 0x3a8a49f1e308b8bull, 0x3a8cae82c8dc46bull, 0x3a8cae82c8dc46cull, 0x3adf0d37a8c4d3full, 0x3b28e9bddd30518ull, 0x3b28e9bddd30519ull, 0x3b3cdde53f85e8full,
0x3b3cdde53f85e90ull, 0x3b6c46f3972904dull, 0x3b8a49f1e308b8bull, 0x3b8cae82c8dc46bull, 0x3b8cae82c8dc46cull, 0x3ba5aa159ff6ec6ull, 0x3c28e9bddd30518ull, 0x3c28e9bddd30519ull,
0x3c32e3d18e5b1d4ull, 0x3c8580d017619caull, 0x3c8cae82c8dc46bull, 0x3c8cae82c8dc46cull, 0x3c9177a4948362cull, 0x3c9177a4948362dull, 0x3d24209c1189357ull, 0x3d24209c1189358ull,
0x3d28e9bddd30518ull, 0x3d28e9bddd30519ull, 0x3d32e3d18e5b1d4ull, 0x3d5acc2053064c2ull, 0x3dc25ba6a45de02ull, 0x3dc25ba6a45de03ull, 0x3df2d7d89a5bc9full, 0x3e28e9bddd30518ull,
0x3e28e9bddd30519ull, 0x3e32e3d18e5b1d4ull, 0x3e5acc2053064c2ull, 0x3ebc2c5458deb34ull, 0x3ebc2c5458deb35ull, 0x3ec25ba6a45de02ull, 0x3ec25ba6a45de03ull, 0x3ed64fce06b3779ull,
0x3ed64fce06b377aull, 0x3f28e9bddd30518ull, 0x3f28e9bddd30519ull, 0x3f5acc2053064c2ull, 0x3f7f9cc5f1f1e49ull, 0x3fbc2c5458deb34ull, 0x3fbc2c5458deb35ull, 0x3fe6e1041d3a03cull,
0x3fe6e1041d3a03dull, 0x400419183e44b91ull, 0x400419183e44b92ull, 0x40397af3f3b6ddbull, 0x40397af3f3b6ddcull, 0x405acc2053064c2ull, 0x407f9cc5f1f1e49ull, 0x40bc2c5458deb34ull,
0x40bc2c5458deb35ull, 0x40e8b820d62943dull, 0x410419183e44b91ull, 0x410419183e44b92ull, 0x41397af3f3b6ddbull, 0x41397af3f3b6ddcull, 0x41b42a73640d943ull, 0x41b6d5be6053493ull,
0x41b6d5be6053494ull, 0x41e8b820d62943dull, 0x420419183e44b91ull, 0x420419183e44b92ull, 0x425d776b4f4c012ull, 0x425d776b4f4c013ull, 0x42757d0e2dbf5e7ull, 0x42b42a73640d943ull,
0x42ce714a1d1b6c0ull, 0x430419183e44b91ull, 0x430419183e44b92ull, 0x4332dab56f2081aull, 0x435d776b4f4c012ull, 0x435d776b4f4c013ull, 0x43b42a73640d943ull, 0x43bed79f5524685ull,
0x440419183e44b91ull, 0x440419183e44b92ull, 0x441bc65280a965aull, 0x4446d36ae11366eull, 0x44b42a73640d943ull, 0x44e384e7e8d6ed4ull, 0x450419183e44b91ull, 0x450419183e44b92ull,
0x4567f862f25b7ceull, 0x4567f862f25b7cfull, 0x45a782cdaece6c8ull, 0x45a782cdaece6c9ull, 0x45b42a73640d943ull, 0x45f5db8c32b02fbull, 0x45f5db8c32b02fcull, 0x460419183e44b91ull,
0x460419183e44b92ull, 0x4626474a23b8e16ull, 0x46ac80fb0b4b25dull, 0x46ac80fb0b4b25eull, 0x46b17f2867c7df2ull, 0x46b17f2867c7df3ull, 0x46f5db8c32b02fbull, 0x46f5db8c32b02fcull,
0x46fe35d5c38fff9ull, 0x470419183e44b91ull, 0x470419183e44b92ull, 0x4726474a23b8e16ull, 0x47af0011b989828ull, 0x47b17f2867c7df2ull, 0x47b17f2867c7df3ull, 0x47f5db8c32b02fbull,
0x47f5db8c32b02fcull, 0x47fe35d5c38fff9ull, 0x480419183e44b91ull, 0x480419183e44b92ull, 0x4826474a23b8e16ull, 0x48584d09a4c7ef7ull, 0x48584d09a4c7ef8ull, 0x48b17f2867c7df2ull,
0x48b17f2867c7df3ull, 0x48db99211b097a5ull, 0x48db99211b097a6ull, 0x48f5db8c32b02fbull, 0x48f5db8c32b02fcull, 0x4919261497e586bull, 0x4932dab56f2081aull, 0x496fd91caca719bull,
0x496fd91caca719cull, 0x4984e6190647e75ull, 0x49b17f2867c7df2ull, 0x49b17f2867c7df3ull, 0x49bdfa99ceffae7ull, 0x4a2bb3fa4347f7aull, 0x4a6fd91caca719bull, 0x4a6fd91caca719cull,
0x4a84e6190647e75ull, 0x4ab17f2867c7df2ull, 0x4ab17f2867c7df3ull, 0x4abdfa99ceffae7ull, 0x4afc6c26f899dd1ull, 0x4b2bb3fa4347f7aull, 0x4b39f91a7575e96ull, 0x4b39f91a7575e97ull,
0x4b6fd91caca719bull, 0x4b6fd91caca719cull, 0x4b74d74a0923d30ull, 0x4b74d74a0923d31ull, 0x4bfc6c26f899dd1ull, 0x4c2bb3fa4347f7aull, 0x4c370798147a042ull, 0x4c39f91a7575e96ull,
0x4c39f91a7575e97ull, 0x4cbfc44899f5d0full, 0x4cfc6c26f899dd1ull, 0x4d1c1796f8e16bfull, 0x4d1c1796f8e16c0ull, 0x4d74d74a0923d30ull, 0x4d74d74a0923d31ull, 0x4d75bc216e9ee44ull,
0x4d75bc216e9ee45ull, 0x4d76a0f8d419f58ull, 0x4d76a0f8d419f59ull, 0x4dc0a91fff70e23ull, 0x4dfc6c26f899dd1ull, 0x4e0d26d53a972d4ull, 0x4e75bc216e9ee44ull, 0x4e75bc216e9ee45ull,
0x4e76a0f8d419f58ull, 0x4e76a0f8d419f59ull, 0x4ec0a91fff70e23ull, 0x4efc6c26f899dd1ull, 0x4f2b0858b72baabull, 0x4f75bc216e9ee44ull, 0x4f75bc216e9ee45ull, 0x4f762e8d215c6ceull,
0x4f762e8d215c6cfull, 0x4f84c97e1998852ull, 0x4f84c97e1998853ull, 0x4fc0a91fff70e23ull, 0x4ffc6c26f899dd1ull, 0x50001b0f123ace2ull, 0x502b0858b72baabull, 0x5075bc216e9ee44ull,
0x5075bc216e9ee45ull, 0x5075d8bc5b4e467ull, 0x5075f55747fda89ull, 0x5075f55747fda8aull, 0x50ffb76b695a2beull, 0x50ffb76b695a2bfull, 0x51001b0f123ace2ull, 0x5150708a893cf89ull,
0x5175bc216e9ee44ull, 0x5175bc216e9ee45ull, 0x5175d8bc5b4e467ull, 0x51ffb76b695a2beull, 0x51ffb76b695a2bfull, 0x52001b0f123ace2ull, 0x526324a372459f8ull, 0x5275bc216e9ee44ull,
0x5275bc216e9ee45ull, 0x5275d8bc5b4e467ull, 0x52ff9ad07caac9cull, 0x53001b0f123ace2ull, 0x530070dfd848f49ull, 0x530070dfd848f4aull, 0x5375d8bc5b4e467ull, 0x53d3409dfbca26full,
0x53d3409dfbca270ull, 0x53eaca169314bb7ull, 0x53eaca169314bb8ull, 0x53f31708efefd84ull, 0x540070dfd848f49ull, 0x540070dfd848f4aull, 0x5447167e14b8a51ull, 0x5447167e14b8a52ull,
0x5475d8bc5b4e467ull, 0x54d3409dfbca26full, 0x54d3409dfbca270ull, 0x54d35d38e879892ull, 0x54fe74994ba836full, 0x54fe74994ba8370ull, 0x5575d8bc5b4e467ull, 0x55bbedcc4ed7076ull,
0x55d3409dfbca26full, 0x55d3409dfbca270ull, 0x55d35d38e879892ull, 0x55d3cfa49b3711cull, 0x565e85eaae5b26dull, 0x565e85eaae5b26eull, 0x5698e3445512a6eull, 0x5698e3445512a6full,
0x56bbedcc4ed7076ull, 0x56d3409dfbca26full, 0x56d3409dfbca270ull, 0x56d3cfa49b3711cull, 0x57240bf61af444aull, 0x575edbbb74694d5ull, 0x5798e3445512a6eull, 0x5798e3445512a6full,
0x57d3409dfbca26full, 0x57d3409dfbca270ull, 0x57d60bbf18eabceull, 0x58240bf61af444aull, 0x582461c6e1026b1ull, 0x582461c6e1026b2ull, 0x586088cf52b00daull, 0x586088cf52b00dbull,
0x5898e3445512a6eull, 0x5898e3445512a6full, 0x58d3409dfbca26full, 0x58d3409dfbca270ull, 0x5906dd494798849ull, 0x5906dd49479884aull, 0x592461c6e1026b1ull, 0x592461c6e1026b2ull,
0x5998e3445512a6eull, 0x5998e3445512a6full, 0x59d3409dfbca26full, 0x59d3409dfbca270ull, 0x59e1e641dbcfb81ull, 0x5a06dd494798849ull, 0x5a06dd49479884aull, 0x5a2cc32a38642cdull,
0x5a6d0ef3a1b155cull, 0x5a6d0ef3a1b155dull, 0x5a7bd1326e66490ull, 0x5a7bd1326e66491ull, 0x5ad3409dfbca26full, 0x5ad3409dfbca270ull, 0x5b06dd494798849ull, 0x5b06dd49479884aull,
0x5b39f61e74a4ed3ull, 0x5ba788e83518380ull, 0x5bd3409dfbca26full, 0x5bd3409dfbca270ull, 0x5bf1542234a0f84ull, 0x5c39f61e74a4ed3ull, 0x5ca3d85881eafb3ull, 0x5ca788e83518380ull,
0x5cd3409dfbca26full, 0x5cd3409dfbca270ull, 0x5cf1542234a0f84ull, 0x5d16bd9553274d6ull, 0x5d16bd9553274d7ull, 0x5d3da6ae27d22a0ull, 0x5d74ff19a778ba3ull, 0x5d9719958a1c846ull,
0x5d9719958a1c847ull, 0x5dd3409dfbca26full, 0x5dd3409dfbca270ull, 0x5e08b591212f230ull, 0x5e16bd9553274d6ull, 0x5e16bd9553274d7ull, 0x5e36d49560e49b2ull, 0x5e36d49560e49b3ull,
0x5e56eb956ea1e8eull, 0x5e56eb956ea1e8full, 0x5ed3409dfbca26full, 0x5ed3409dfbca270ull, 0x5f08b591212f230ull, 0x5f36d49560e49b2ull, 0x5f36d49560e49b3ull, 0x5f56eb956ea1e8eull,
0x5f56eb956ea1e8full, 0x5fd3409dfbca26full, 0x5fd3409dfbca270ull, 0x5fedb92c7f1baa7ull, 0x5fedb92c7f1baa8ull, 0x6008b591212f230ull, 0x6046e01567c3420ull, 0x6046e01567c3421ull,
0x6056eb956ea1e8eull, 0x6056eb956ea1e8full, 0x60d3409dfbca26full, 0x60d3409dfbca270ull, 0x60edb92c7f1baa7ull, 0x60edb92c7f1baa8ull, 0x6108b591212f230ull, 0x6126c9155a05f44ull,
0x6126c9155a05f45ull, 0x6146e01567c3420ull, 0x6146e01567c3421ull, 0x614ee5d56b32957ull, 0x614ee5d56b32958ull, 0x617702957c5f36aull, 0x617702957c5f36bull, 0x61d3409dfbca26full,
0x61d3409dfbca270ull, 0x6208b591212f230ull, 0x6226c9155a05f44ull, 0x6226c9155a05f45ull, 0x624ae2f5697aebcull, 0x624ee5d56b32957ull, 0x624ee5d56b32958ull, 0x62f457501ff00b5ull,
0x62f457501ff00b6ull, 0x6308b591212f230ull, 0x633ad775629c44eull, 0x634ae2f5697aebcull, 0x634ee5d56b32957ull, 0x634ee5d56b32958ull, 0x63f457501ff00b5ull, 0x63f457501ff00b6ull,
0x644ae2f5697aebcull, 0x644ee5d56b32957ull, 0x644ee5d56b32958ull, 0x64d53bea8086050ull, 0x64ec51901c80b7eull, 0x64ec51901c80b7full, 0x64f457501ff00b5ull, 0x64f457501ff00b6ull,
0x65218696bc4b8e4ull, 0x65218696bc4b8e5ull, 0x654ee5d56b32957ull, 0x654ee5d56b32958ull, 0x659d9bb2c3d9a6bull, 0x65c434d00b5416bull, 0x65c434d00b5416cull, 0x65f457501ff00b5ull,
0x65f457501ff00b6ull, 0x664ee5d56b32957ull, 0x664ee5d56b32958ull, 0x66898d52bb43561ull, 0x66898d52bb43562ull, 0x669d9bb2c3d9a6bull, 0x66b44b521b4d2a4ull, 0x66b44b521b4d2a5ull,
0x66dda7b0c87c87cull, 0x670ed9d7668fb46ull, 0x670ed9d7668fb47ull, 0x67143e581b21d4dull, 0x67143e581b21d4eull, 0x672545729053c32ull, 0x674ee5d56b32957ull, 0x674ee5d56b32958ull,
0x676c3994133af5cull, 0x676c3994133af5dull, 0x67dda7b0c87c87cull, 0x68143e581b21d4dull, 0x68143e581b21d4eull, 0x684ee5d56b32957ull, 0x684ee5d56b32958ull, 0x685d8fb4bf36c5aull,
0x68a6e111634bb66ull, 0x68a6e111634bb67ull, 0x68dda7b0c87c87cull, 0x68fdadafcacdf84ull, 0x68fdadafcacdf85ull, 0x69143e581b21d4dull, 0x69143e581b21d4eull, 0x695d8fb4bf36c5aull,
0x69663dc4965d65dull, 0x69fdadafcacdf84ull, 0x69fdadafcacdf85ull, 0x6a062bc78f69143ull, 0x6a062bc78f69144ull, 0x6a2a88ce7d4dd4dull, 0x6a2a88ce7d4dd4eull, 0x6a5d8fb4bf36c5aull,
0x6ac306327abd37aull, 0x6ac306327abd37bull, 0x6afdadafcacdf84ull, 0x6afdadafcacdf85ull, 0x6b062bc78f69143ull, 0x6b062bc78f69144ull, 0x6b2a88ce7d4dd4dull, 0x6b2a88ce7d4dd4eull,
0x6ba6e111634bb66ull, 0x6ba6e111634bb67ull, 0x6bc306327abd37aull, 0x6bc306327abd37bull, 0x6bfdadafcacdf84ull, 0x6bfdadafcacdf85ull, 0x6c062bc78f69143ull, 0x6c062bc78f69144ull,
0x6c2a88ce7d4dd4dull, 0x6c2a88ce7d4dd4eull, 0x6c941b3f240de69ull, 0x6cb4f3a1ef04770ull, 0x6cb4f3a1ef04771ull, 0x6cbbfcea34e0d75ull, 0x6cbbfcea34e0d76ull, 0x6cc306327abd37aull,
0x6cc306327abd37bull, 0x6d062bc78f69143ull, 0x6d062bc78f69144ull, 0x6d2a88ce7d4dd4dull, 0x6d2a88ce7d4dd4eull, 0x6db4f3a1ef04770ull, 0x6db4f3a1ef04771ull, 0x6db8784611f2a73ull,
0x6dbbfcea34e0d75ull, 0x6dbbfcea34e0d76ull, 0x6df4966e0f54c82ull, 0x6e33a01038c7050ull, 0x6e8b03fd6894b66ull, 0x6e8b03fd6894b67ull, 0x6e98ce80d792f5cull, 0x6e98ce80d792f5dull,
0x6eb4f3a1ef04770ull, 0x6eb4f3a1ef04771ull, 0x6eb8784611f2a73ull, 0x6ebbfcea34e0d75ull, 0x6ebbfcea34e0d76ull, 0x6f33a01038c7050ull, 0x6f8b03fd6894b66ull, 0x6f8b03fd6894b67ull,
0x6faa65b58639e69ull, 0x6fb4f3a1ef04770ull, 0x6fb4f3a1ef04771ull, 0x6fb8784611f2a73ull, 0x6fbbfcea34e0d75ull, 0x6fbbfcea34e0d76ull, 0x7033a01038c7050ull, 0x704897e27bfee55ull,
0x70aa65b58639e69ull, 0x70b8784611f2a73ull, 0x70bbfcea34e0d75ull, 0x70bbfcea34e0d76ull, 0x70d7ec0176c677aull, 0x70d7ec0176c677bull, 0x712d26e22c5fa73ull, 0x714897e27bfee55ull,
0x7180881446f8c64ull, 0x71aa65b58639e69ull, 0x71bbfcea34e0d75ull, 0x71bbfcea34e0d76ull, 0x724897e27bfee55ull, 0x72648ffb617bd5cull, 0x72648ffb617bd5dull, 0x726bc64bd94cc6eull,
0x7280881446f8c64ull, 0x72aa65b58639e69ull, 0x72bbfcea34e0d75ull, 0x72bbfcea34e0d76ull, 0x7320660f353a94bull, 0x734897e27bfee55ull, 0x738b1600afc356bull, 0x738b1600afc356cull,
0x73aa65b58639e69ull, 0x73c4b200733a075ull, 0x73c4b200733a076ull, 0x73d4705ef76f97aull, 0x73d4705ef76f97bull, 0x7420660f353a94bull, 0x7430246db970250ull, 0x744897e27bfee55ull,
0x74aa65b58639e69ull, 0x74e0aa1958b6f7dull, 0x74f4c302fc19202ull, 0x7530246db970250ull, 0x756d45119fd505cull, 0x756d45119fd505dull, 0x7594a0fdea5aee9ull, 0x75aa65b58639e69ull,
0x75c6b7decf9ff89ull, 0x75c6b7decf9ff8aull, 0x75e0aa1958b6f7dull, 0x7630246db970250ull, 0x764df55cc95e75full, 0x7694a0fdea5aee9ull, 0x76aa65b58639e69ull, 0x76b94e2d0e310f0ull,
0x76b94e2d0e310f1ull, 0x76baa58ba188f33ull, 0x770a1fe00242206ull, 0x777c2d8927cc2e4ull, 0x7794a0fdea5aee9ull, 0x77a7a344c5f1f0eull, 0x77aa65b58639e69ull, 0x77df52bac55f13aull,
0x77df52bac55f13bull, 0x780a1fe00242206ull, 0x787c2d8927cc2e4ull, 0x7893499f57030a6ull, 0x7893499f57030a7ull, 0x78987fb27132404ull, 0x78987fb27132405ull, 0x78aa65b58639e69ull,
0x78f25501a0f615full, 0x78f25501a0f6160ull, 0x79009ebc94769f3ull, 0x79009ebc94769f4ull, 0x791d2226ddd922bull, 0x7936d9469a2799cull, 0x7936d9469a2799dull, 0x79aa65b58639e69ull,
0x79f25501a0f615full, 0x79f25501a0f6160ull, 0x79fbd6250ec1972ull, 0x7a009ebc94769f3ull, 0x7a009ebc94769f4ull, 0x7a1d2226ddd922bull, 0x7aaa65b58639e69ull, 0x7adb38eb71bf39dull,
0x7af25501a0f615full, 0x7af25501a0f6160ull, 0x7afe89cf1bd76acull, 0x7afe89cf1bd76adull, 0x7b1d2226ddd922bull, 0x7b48bf49af2f401ull, 0x7b987fb27132404ull, 0x7b987fb27132405ull,
0x7bc2cf507bfc903ull, 0x7bdb38eb71bf39dull, 0x7bfe89cf1bd76acull, 0x7bfe89cf1bd76adull, 0x7c1707c02068784ull, 0x7c1707c02068785ull, 0x7c1e6faba464f02ull, 0x7c1e6faba464f03ull,
0x7cc2cf507bfc903ull, 0x7ccf041df6dde50ull, 0x7cdb38eb71bf39dull, 0x7cfe89cf1bd76acull, 0x7cfe89cf1bd76adull, 0x7d1707c02068784ull, 0x7d1707c02068785ull, 0x7d8ac8c79e1ff18ull,
0x7d8ac8c79e1ff19ull, 0x7dc2cf507bfc903ull, 0x7dcf041df6dde50ull, 0x7dd51e84b44e8f6ull, 0x7dd51e84b44e8f7ull, 0x7dffd753e263384ull, 0x7e50e843df4434eull, 0x7e50e843df4434full,
0x7e5b431679266bcull, 0x7e8ac8c79e1ff18ull, 0x7e8ac8c79e1ff19ull, 0x7ec2cf507bfc903ull, 0x7ed51e84b44e8f6ull, 0x7ed51e84b44e8f7ull, 0x7ee153522f2fe43ull, 0x7ee153522f2fe44ull,
0x7f1e6faba464f02ull, 0x7f1e6faba464f03ull, 0x7f216292ba4aaf2ull, 0x7f615d7d3697162ull, 0x7f615d7d3697163ull, 0x7fa44b4ec8c93c2ull, 0x7fa44b4ec8c93c3ull, 0x7fc2cf507bfc903ull,
0x7fd51e84b44e8f6ull, 0x7fd51e84b44e8f7ull, 0x80047250dadcd0dull, 0x80216292ba4aaf2ull, 0x80615d7d3697162ull, 0x80615d7d3697163ull, 0x80a44b4ec8c93c2ull, 0x80a44b4ec8c93c3ull,
0x80d51e84b44e8f6ull, 0x80d51e84b44e8f7ull, 0x81047250dadcd0dull, 0x81216292ba4aaf2ull, 0x81615d7d3697162ull, 0x81615d7d3697163ull, 0x8182d465ffb0292ull, 0x8182d465ffb0293ull,
0x81d51e84b44e8f6ull, 0x81d51e84b44e8f7ull, 0x81f20ec693bc6dbull, 0x81f20ec693bc6dcull, 0x820bb74648c8980ull, 0x82216292ba4aaf2ull, 0x82615d7d3697162ull, 0x82615d7d3697163ull,
0x827218f19b239faull, 0x827218f19b239fbull, 0x82cdb5fb6e2189cull, 0x82cdb5fb6e2189dull, 0x82f20ec693bc6dbull, 0x82f20ec693bc6dcull, 0x830bb74648c8980ull, 0x83216292ba4aaf2ull,
0x83615d7d3697162ull, 0x83615d7d3697163ull, 0x8369bb3768dd5aeull, 0x8369bb3768dd5afull, 0x83f63da3acdf901ull, 0x83f63da3acdf902ull, 0x83ffe8589bc7264ull, 0x83ffe8589bc7265ull,
0x8403598c1682534ull, 0x84658c5a4fba388ull, 0x84658c5a4fba389ull, 0x8469bb3768dd5aeull, 0x8469bb3768dd5afull, 0x84affc6d8ade758ull, 0x84f855123971214ull, 0x84f855123971215ull,
0x84ffe8589bc7264ull, 0x84ffe8589bc7265ull, 0x8503598c1682534ull, 0x8524d074df9b664ull, 0x8567a3c8dc4bc9bull, 0x8567a3c8dc4bc9cull, 0x8569bb3768dd5aeull, 0x8569bb3768dd5afull,
0x85f78a9e6980e18ull, 0x85f78a9e6980e19ull, 0x85fbb97b82a403eull, 0x85fbb97b82a403full, 0x8601421d89f0c21ull, 0x860fe62361ebba6ull, 0x8667a3c8dc4bc9bull, 0x8667a3c8dc4bc9cull,
0x8668af802294925ull, 0x86e2a04cebd135aull, 0x86e2a04cebd135bull, 0x86fbb97b82a403eull, 0x86fbb97b82a403full, 0x8700366643a7f97ull, 0x8700366643a7f98ull, 0x870570faa313e47ull,
0x8767a3c8dc4bc9bull, 0x8767a3c8dc4bc9cull, 0x8768af802294925ull, 0x87e2a04cebd135aull, 0x87e2a04cebd135bull, 0x87faadc43c5b3b5ull, 0x8800366643a7f97ull, 0x8800366643a7f98ull,
0x880dfdc476cb097ull, 0x88c255848815529ull, 0x88c25584881552aull, 0x88dd65b88c654abull, 0x88f746fcbc20e39ull, 0x8900366643a7f97ull, 0x8900366643a7f98ull, 0x890570faa313e47ull,
0x89c149cd41cc8a0ull, 0x89c255848815529ull, 0x89c25584881552aull, 0x89ed1575aaa90b9ull, 0x89ed1575aaa90baull, 0x89f423d6e94689cull, 0x89f423d6e94689dull, 0x8a0570faa313e47ull,
0x8abe26a76ef2303ull, 0x8abe26a76ef2304ull, 0x8ac149cd41cc8a0ull, 0x8ac255848815529ull, 0x8ac25584881552aull, 0x8ac3613bce5e1b3ull, 0x8aeee94289da9edull, 0x8b50f759f159678ull,
0x8bae76ea50ae6f5ull, 0x8bbe26a76ef2303ull, 0x8bbe26a76ef2304ull, 0x8bc255848815529ull, 0x8bc25584881552aull, 0x8bc3613bce5e1b3ull, 0x8bc89bd02dca062ull, 0x8bc89bd02dca063ull,
0x8c45e352dc4013full, 0x8c4feba2ab109eeull, 0x8c4feba2ab109efull, 0x8cae76ea50ae6f5ull, 0x8cc3613bce5e1b3ull, 0x8cc89bd02dca062ull, 0x8cc89bd02dca063ull, 0x8d45e352dc4013full,
0x8d4feba2ab109eeull, 0x8d4feba2ab109efull, 0x8dc3613bce5e1b3ull, 0x8dc89bd02dca062ull, 0x8dc89bd02dca063ull, 0x8dfa7ebe304ee3dull, 0x8dfa7ebe304ee3eull, 0x8e35c6bccdf5081ull,
0x8e4feba2ab109eeull, 0x8e4feba2ab109efull, 0x8e6e17ae0bbef8bull, 0x8e6e17ae0bbef8cull, 0x8e8c43b96c6d528ull, 0x8e8c43b96c6d529ull, 0x8ec89bd02dca062ull, 0x8ec89bd02dca063ull,
0x8efa7ebe304ee3dull, 0x8efa7ebe304ee3eull, 0x8f25aa26bfa9fc3ull, 0x8f35c6bccdf5081ull, 0x8f4feba2ab109eeull, 0x8f4feba2ab109efull, 0x8f6e17ae0bbef8bull, 0x8f6e17ae0bbef8cull,
0x8f7639150721379ull, 0x8fc89bd02dca062ull, 0x8fc89bd02dca063ull, 0x9025aa26bfa9fc3ull, 0x9031bf974a62451ull, 0x9031bf974a62452ull, 0x905f01a85b67cbdull, 0x906e17ae0bbef8bull,
0x906e17ae0bbef8cull, 0x90c89bd02dca062ull, 0x90c89bd02dca063ull, 0x90e0c6b1433a97full, 0x90e0c6b1433a980ull, 0x9125aa26bfa9fc3ull, 0x9131bf974a62451ull, 0x9131bf974a62452ull,
0x915f01a85b67cbdull, 0x916e17ae0bbef8bull, 0x916e17ae0bbef8cull, 0x917d2db3bc1625aull, 0x91cca2f5b15cc92ull, 0x920ecc411cb96f5ull, 0x926e17ae0bbef8bull, 0x926e17ae0bbef8cull,
0x9279268e388362aull, 0x9279268e388362bull, 0x927d2db3bc1625aull, 0x92cca2f5b15cc92ull, 0x92f05671286d57eull, 0x92f05671286d57full, 0x931de246cd109c3ull, 0x931de246cd109c4ull,
0x934df19de36599eull, 0x93597a38450596dull, 0x93597a38450596eull, 0x93e3b42a749cc31ull, 0x93ec4f4ba4da94full, 0x93f05671286d57eull, 0x93f05671286d57full, 0x941de246cd109c3ull,
0x941de246cd109c4ull, 0x944df19de36599eull, 0x94597a38450596dull, 0x94597a38450596eull, 0x94dc7920ab1baf0ull, 0x94dc7920ab1baf1ull, 0x94e667c8e9c4837ull, 0x94e667c8e9c4838ull,
0x94ec4f4ba4da94full, 0x9522d99aec65067ull, 0x9527d0ef0bb970aull, 0x9527d0ef0bb970bull, 0x9549a40d4b46b0full, 0x95822507db6a8fdull, 0x95822507db6a8feull, 0x95dc7920ab1baf0ull,
0x95dc7920ab1baf1ull, 0x95ec4f4ba4da94full, 0x9627d0ef0bb970aull, 0x9627d0ef0bb970bull, 0x96822507db6a8fdull, 0x96822507db6a8feull, 0x969af9ac7810a2full, 0x96a16e055c3f005ull,
0x96a16e055c3f006ull, 0x96ec4f4ba4da94full, 0x974bcad59756256ull, 0x974bcad59756257ull, 0x9754fafb7392004ull, 0x97822507db6a8fdull, 0x97822507db6a8feull, 0x979af9ac7810a2full,
0x97c3a47c0e759bfull, 0x97ec4f4ba4da94full, 0x9820f93db4e1b7full, 0x9854fafb7392004ull, 0x98822507db6a8fdull, 0x98822507db6a8feull, 0x989af9ac7810a2full, 0x98af4f1443431f7ull,
0x98ec4f4ba4da94full, 0x9900e98f4eba90dull, 0x9986a444acde267ull, 0x99a524605da9e13ull, 0x99af4f1443431f7ull, 0x99ec4f4ba4da94full, 0x99f6db2712672f6ull, 0x9a00e98f4eba90dull,
0x9a86a444acde267ull, 0x9aaa39ba5076805ull, 0x9aaf4f1443431f7ull, 0x9ab979c828dc5dbull, 0x9afc5722d7ee288ull, 0x9b28fd294e6b81bull, 0x9b28fd294e6b81cull, 0x9b53cec130dfef3ull,
0x9ba00f066add421ull, 0x9baa39ba5076805ull, 0x9bacc46749dccfeull, 0x9bb979c828dc5dbull, 0x9c53cec130dfef3ull, 0x9ca00f066add421ull, 0x9cacc46749dccfeull, 0x9cd1858af579bb0ull,
0x9cd1858af579bb1ull, 0x9cd2e489e6db795ull, 0x9d53cec130dfef3ull, 0x9d9359a58bddb44ull, 0x9da669b6da5d08full, 0x9da669b6da5d090ull, 0x9dacc46749dccfeull, 0x9dd1858af579bb0ull,
0x9dd1858af579bb1ull, 0x9dd2e489e6db795ull, 0x9e3b389d07e5d50ull, 0x9e41934d77659beull, 0x9e41934d77659bfull, 0x9e53cec130dfef3ull, 0x9e9359a58bddb44ull, 0x9eb31f17b95c96cull,
0x9eb31f17b95c96dull, 0x9ee79dd65f64d0eull, 0x9ee79dd65f64d0full, 0x9f2e833c28e6473ull, 0x9f41934d77659beull, 0x9f41934d77659bfull, 0x9f53cec130dfef3ull, 0x9f73fe8228e1527ull,
0x9fb31f17b95c96cull, 0x9fb31f17b95c96dull, 0x9ff2a9fc145a5bdull, 0x9ff2a9fc145a5beull, 0xa02e833c28e6473ull, 0xa04e48ae566529bull, 0xa04e48ae566529cull, 0xa05edae6e5d57a2ull,
0xa0e58a4c6ad84d5ull, 0xa0f2a9fc145a5bdull, 0xa0f2a9fc145a5beull, 0xa0f8300eeed5215ull, 0xa125305ae6e7dd3ull, 0xa14e48ae566529bull, 0xa14e48ae566529cull, 0xa15edae6e5d57a2ull,
0xa1e58a4c6ad84d5ull, 0xa1f2a9fc145a5bdull, 0xa1f2a9fc145a5beull, 0xa1f8300eeed5215ull, 0xa207242d2c601b9ull, 0xa207242d2c601baull, 0xa225305ae6e7dd3ull, 0xa24e48ae566529bull,
0xa24e48ae566529cull, 0xa2855d53a8e0154ull, 0xa2f2a9fc145a5bdull, 0xa2f2a9fc145a5beull, 0xa325305ae6e7dd3ull, 0xa3433c88a16f9ecull, 0xa3433c88a16f9edull, 0xa3b691a09f4ad8aull,
0xa3b691a09f4ad8bull, 0xa3e0e0dbc9d9185ull, 0xa3f2a9fc145a5bdull, 0xa3f2a9fc145a5beull, 0xa425305ae6e7dd3ull, 0xa4433c88a16f9ecull, 0xa4433c88a16f9edull, 0xa47ce714a05d3bbull,
0xa47ce714a05d3bcull, 0xa483089b58607acull, 0xa4f2a9fc145a5bdull, 0xa4f2a9fc145a5beull, 0xa525305ae6e7dd3ull, 0xa542a114c3e7253ull, 0xa542a114c3e7254ull, 0xa56011cea0e66d4ull,
0xa57ce714a05d3bbull, 0xa57ce714a05d3bcull, 0xa5e6b4a893181a9ull, 0xa625305ae6e7dd3ull, 0xa66011cea0e66d4ull, 0xa67ce714a05d3bbull, 0xa67ce714a05d3bcull, 0xa67d34ce8f21788ull,
0xa6d9796d461666cull, 0xa7080d5af8acd1full, 0xa725305ae6e7dd3ull, 0xa77ce714a05d3bbull, 0xa77ce714a05d3bcull, 0xa7d4eb884896d70ull, 0xa7d4eb884896d71ull, 0xa7e3cac22e78997ull,
0xa7f3456ff1e2d56ull, 0xa7f3456ff1e2d57ull, 0xa8080d5af8acd1full, 0xa825305ae6e7dd3ull, 0xa87ce714a05d3bbull, 0xa87ce714a05d3bcull, 0xa8847d8e8ab03b5ull, 0xa8b816424920089ull,
0xa8d4eb884896d70ull, 0xa8d4eb884896d71ull, 0xa954d6f4b8cc0c4ull, 0xa9587b54b6936daull, 0xa9587b54b6936dbull, 0xa97ce714a05d3bbull, 0xa97ce714a05d3bcull, 0xa9847d8e8ab03b5ull,
0xa9b816424920089ull, 0xa9e76f222c3ffadull, 0xa9e76f222c3ffaeull, 0xaa2c791ae276a00ull, 0xaa52697c76159dfull, 0xaa52697c76159e0ull, 0xaa587b54b6936daull, 0xaa587b54b6936dbull,
0xaa7ce714a05d3bbull, 0xaa7ce714a05d3bcull, 0xaa847d8e8ab03b5ull, 0xaab816424920089ull, 0xab2c791ae276a00ull, 0xab67a8488b396cdull, 0xab67a8488b396ceull, 0xab7247ae95cb544ull,
0xab7247ae95cb545ull, 0xab7ce714a05d3bbull, 0xab7ce714a05d3bcull, 0xab847d8e8ab03b5ull, 0xabcf9bd5434de35ull, 0xac2c791ae276a00ull, 0xac7247ae95cb544ull, 0xac7247ae95cb545ull,
0xac7ce714a05d3bbull, 0xac7ce714a05d3bcull, 0xacaa0cb1e6ff0f5ull, 0xacbd65f54e68fc4ull, 0xacbd65f54e68fc5ull, 0xaccf9bd5434de35ull, 0xad06e9f78627cc0ull, 0xad0990f7083f99full,
0xad7247ae95cb544ull, 0xad7247ae95cb545ull, 0xad7797619b14480ull, 0xade113fd997305full, 0xade113fd9973060ull, 0xade2f518aab7d04ull, 0xade2f518aab7d05ull, 0xae04414402f6a63ull,
0xae04414402f6a64ull, 0xae06e9f78627cc0ull, 0xae7247ae95cb544ull, 0xae7247ae95cb545ull, 0xae7797619b14480ull, 0xaedbc44a942a124ull, 0xaef5bcaa58df3a4ull, 0xaef5bcaa58df3a5ull,
0xaf04414402f6a63ull, 0xaf04414402f6a64ull, 0xaf06e9f78627cc0ull, 0xaf19b189344f360ull, 0xafd02d86fc90664ull, 0xafd02d86fc90665ull, 0xafec58e181cb854ull, 0xafec58e181cb855ull,
0xaffcc2cf579d96cull, 0xaffcc2cf579d96dull, 0xb00990f7083f99full, 0xb019b189344f360ull, 0xb0d02d86fc90664ull, 0xb0d02d86fc90665ull, 0xb0d57d3a01d95a0ull, 0xb0ecd3b647c2bbaull,
0xb0ff20732ff2ef4ull, 0xb0ff20732ff2ef5ull, 0xb10238131a9df18ull, 0xb1caddd3f747729ull, 0xb1d02d86fc90664ull, 0xb1d02d86fc90665ull, 0xb1d57d3a01d95a0ull, 0xb1e56c5311b4352ull,
0xb1e56c5311b4353ull, 0xb1ff20732ff2ef4ull, 0xb1ff20732ff2ef5ull, 0xb20238131a9df18ull, 0xb2601deb8163038ull, 0xb2caddd3f747729ull, 0xb2d02d86fc90664ull, 0xb2d02d86fc90665ull,
0xb2e56c5311b4352ull, 0xb2e56c5311b4353ull, 0xb2f363b8231a4d0ull, 0xb2f363b8231a4d1ull, 0xb30238131a9df18ull, 0xb3256e444127d84ull, 0xb3656d9e86abf73ull, 0xb3656d9e86abf74ull,
0xb3caddd3f747729ull, 0xb3d02d86fc90664ull, 0xb3d02d86fc90665ull, 0xb3ed855a9cadfbeull, 0xb3ed855a9cadfbfull, 0xb4081670a10a42aull, 0xb4256e444127d84ull, 0xb4656d9e86abf73ull,
0xb4656d9e86abf74ull, 0xb4b04f54dcdaaffull, 0xb4b04f54dcdab00ull, 0xb4caddd3f747729ull, 0xb4ed855a9cadfbeull, 0xb4ed855a9cadfbfull, 0xb5081670a10a42aull, 0xb5256e444127d84ull,
0xb5656d9e86abf73ull, 0xb5656d9e86abf74ull, 0xb578260c1c37a56ull, 0xb578260c1c37a57ull, 0xb58ade79b1c3539ull, 0xb58ade79b1c353aull, 0xb5fc31446cbcc6bull, 0xb5fc31446cbcc6cull,
0xb600c07bb902dd3ull, 0xb600c07bb902dd4ull, 0xb6256e444127d84ull, 0xb6656d9e86abf73ull, 0xb6656d9e86abf74ull, 0xb678260c1c37a56ull, 0xb678260c1c37a57ull, 0xb6c1819d2c819b7ull,
0xb6c1819d2c819b8ull, 0xb6f4db4f84b5615ull, 0xb700c07bb902dd3ull, 0xb700c07bb902dd4ull, 0xb70615fe2da386aull, 0xb76ec9d55171ce5ull, 0xb778260c1c37a56ull, 0xb778260c1c37a57ull,
0xb7b745469212d69ull, 0xb7b745469212d6aull, 0xb7e62f65b4a6968ull, 0xb800c07bb902dd3ull, 0xb800c07bb902dd4ull, 0xb80615fe2da386aull, 0xb86ec9d55171ce5ull, 0xb878260c1c37a56ull,
0xb878260c1c37a57ull, 0xb8f3d82e9356287ull, 0xb8f3d82e9356288ull, 0xb8f8cac61d7bb84ull, 0xb90615fe2da386aull, 0xb90c42fb8dbd91cull, 0xb930f0c415e28ccull, 0xb930f0c415e28cdull,
0xb96ec9d55171ce5ull, 0xb9cf2a660b312d7ull, 0xb9f91f2a719b8baull, 0xb9f91f2a719b8bbull, 0xba18ce6bc32f34dull, 0xba9efa1dae517deull, 0xbac5ce2f406b565ull, 0xbac5ce2f406b566ull,
0xbacf2a660b312d7ull, 0xbaf91f2a719b8baull, 0xbaf91f2a719b8bbull, 0xbba05d541553f9full, 0xbba05d541553fa0ull, 0xbbb71241dcc155aull, 0xbbb71241dcc155bull, 0xbbc5ce2f406b565ull,
0xbbc5ce2f406b566ull, 0xbbcf2a660b312d7ull, 0xbc4f53ba712cf63ull, 0xbc56b1b12301f68ull, 0xbc56b1b12301f69ull, 0xbca05d541553f9full, 0xbca05d541553fa0ull, 0xbcb71241dcc155aull,
0xbcb71241dcc155bull, 0xbccf2a660b312d7ull, 0xbd1f2372144d46aull, 0xbd43f9438d76485ull, 0xbd43f9438d76486ull, 0xbd4f53ba712cf63ull, 0xbdb71241dcc155aull, 0xbdb71241dcc155bull,
0xbdcf2a660b312d7ull, 0xbe166244fb75ca3ull, 0xbe7726ec0fbf3a0ull, 0xbe7726ec0fbf3a1ull, 0xbecdf452a754782ull, 0xbecf2a660b312d7ull, 0xbefd5c6e4f20064ull, 0xbf166244fb75ca3ull,
0xbf2f5e0f8aabe86ull, 0xbfcf2a660b312d7ull, 0xbfe6436a2d2899dull, 0xbfe6436a2d2899eull, 0xbffd5c6e4f20064ull, 0xc02f5e0f8aabe86ull, 0xc066ec4e9960984ull, 0xc066ec4e9960985ull,
0xc07f443acaee8aeull, 0xc07f443acaee8afull, 0xc089df59a54ae83ull, 0xc089df59a54ae84ull, 0xc0cf2a660b312d7ull, 0xc0fd5c6e4f20064ull, 0xc1166244fb75ca3ull, 0xc12740c0cf7c978ull,
0xc17e0552bb5804bull, 0xc189df59a54ae83ull, 0xc189df59a54ae84ull, 0xc1b64044d36eb11ull, 0xc1cf2a660b312d7ull, 0xc2166244fb75ca3ull, 0xc23e59c4f17403eull, 0xc23e59c4f17403full,
0xc27b35936d56e27ull, 0xc27b35936d56e28ull, 0xc2c98ae76f2ee90ull, 0xc2cf2a660b312d7ull, 0xc2f18267652d22bull, 0xc2f18267652d22cull, 0xc33165633977bc9ull, 0xc33165633977bcaull,
0xc33e59c4f17403eull, 0xc33e59c4f17403full, 0xc37b35936d56e27ull, 0xc37b35936d56e28ull, 0xc3c98ae76f2ee90ull, 0xc3e373aadf2777aull, 0xc43165633977bc9ull, 0xc43165633977bcaull,
0xc43e59c4f17403eull, 0xc43e59c4f17403full, 0xc451a4678d343bdull, 0xc451a4678d343beull, 0xc4665144e7723daull, 0xc47110f1035bbd6ull, 0xc4c98ae76f2ee90ull, 0xc50cbcf3ad95ae3ull,
0xc50cbcf3ad95ae4ull, 0xc53165633977bc9ull, 0xc53165633977bcaull, 0xc557282d93632ecull, 0xc5ab38b8c710cb4ull, 0xc5b0bc7ecd3fbe2ull, 0xc5b0bc7ecd3fbe3ull, 0xc5e9eddbbb259b4ull,
0xc5e9eddbbb259b5ull, 0xc60cbcf3ad95ae3ull, 0xc60cbcf3ad95ae4ull, 0xc61df6d0a57d51aull, 0xc63165633977bc9ull, 0xc63165633977bcaull, 0xc68da99f7a4eabfull, 0xc6e25950111e13dull,
0xc6e25950111e13eull, 0xc6e9eddbbb259b4ull, 0xc6e9eddbbb259b5ull, 0xc7015e222e8a631ull, 0xc71df6d0a57d51aull, 0xc7778b21df59e10ull, 0xc7778b21df59e11ull, 0xc78da99f7a4eabfull,
0xc7e9eddbbb259b4ull, 0xc7e9eddbbb259b5ull, 0xc7f83a32f69f129ull, 0xc81df6d0a57d51aull, 0xc8406a8a954c987ull, 0xc8778b21df59e10ull, 0xc8778b21df59e11ull, 0xc8bfe596214ecd0ull,
0xc8bfe596214ecd1ull, 0xc8e9eddbbb259b4ull, 0xc8e9eddbbb259b5ull, 0xc8f83a32f69f129ull, 0xc90b03737c6a7f0ull, 0xc90b03737c6a7f1ull, 0xc91df6d0a57d51aull, 0xc9bf08d608b9357ull,
0xc9e9eddbbb259b4ull, 0xc9e9eddbbb259b5ull, 0xc9f54cad3a30e67ull, 0xc9f83a32f69f129ull, 0xca27021f2dbbef2ull, 0xca300d6db5fa8caull, 0xca657484cedca60ull, 0xca657484cedca61ull,
0xca73057a9b3a924ull, 0xca73057a9b3a925ull, 0xcabf08d608b9357ull, 0xcaf83a32f69f129ull, 0xcb0b03737c6a7f0ull, 0xcb0b03737c6a7f1ull, 0xcb27021f2dbbef2ull, 0xcb300d6db5fa8caull,
0xcb73057a9b3a924ull, 0xcb73057a9b3a925ull, 0xcbfd7b3ba9d9ec5ull, 0xcbfd7b3ba9d9ec6ull, 0xcc300d6db5fa8caull, 0xcc73057a9b3a924ull, 0xcc73057a9b3a925ull, 0xcca30a2a5767c55ull,
0xcca30a2a5767c56ull, 0xccbcc60266a98e1ull, 0xccfd7b3ba9d9ec5ull, 0xccfd7b3ba9d9ec6ull, 0xcd300d6db5fa8caull, 0xcd73057a9b3a924ull, 0xcd73057a9b3a925ull, 0xcdbcc60266a98e1ull,
0xcdef0d85c4e6688ull, 0xce2a665ca0d36a3ull, 0xce300d6db5fa8caull, 0xce7c10c923792fcull, 0xce7c10c923792fdull, 0xcea30a2a5767c55ull, 0xcea30a2a5767c56ull, 0xcebcc60266a98e1ull,
0xcedb90d52aef1dbull, 0xcedb90d52aef1dcull, 0xcf300d6db5fa8caull, 0xcf73962f83be7c2ull, 0xcf7c10c923792fcull, 0xcf7c10c923792fdull, 0xcf8f8d79bd707a9ull, 0xcfbcc60266a98e1ull,
0xcff7d42a94b2c9eull, 0xcff7d42a94b2c9full, 0xd0300d6db5fa8caull, 0xd07c10c923792fcull, 0xd07c10c923792fdull, 0xd08f8d79bd707a9ull, 0xd0982e18f534051ull, 0xd0982e18f534052ull,
0xd0b9f279dc15fcdull, 0xd0b9f279dc15fceull, 0xd0bcc60266a98e1ull, 0xd102faeaa4ca500ull, 0xd121ebc30118b68ull, 0xd121ebc30118b69ull, 0xd13b488d1444661ull, 0xd14efe461248f32ull,
0xd14efe461248f33ull, 0xd17c10c923792fcull, 0xd17c10c923792fdull, 0xd1bcc60266a98e1ull, 0xd202faeaa4ca500ull, 0xd221ebc30118b68ull, 0xd221ebc30118b69ull, 0xd24efe461248f32ull,
0xd24efe461248f33ull, 0xd28f8d79bd707a9ull, 0xd2c2b91eabe25e4ull, 0xd2d07bbb64ae1b2ull, 0xd2d07bbb64ae1b3ull, 0xd302faeaa4ca500ull, 0xd338750489b0d4dull, 0xd338750489b0d4eull,
0xd34efe461248f32ull, 0xd34efe461248f33ull, 0xd38f8d79bd707a9ull, 0xd3a9234c34a96c6ull, 0xd3a9234c34a96c7ull, 0xd3d07bbb64ae1b2ull, 0xd3d07bbb64ae1b3ull, 0xd402faeaa4ca500ull,
0xd438750489b0d4dull, 0xd438750489b0d4eull, 0xd443b9a54dfce40ull, 0xd44efe461248f32ull, 0xd44efe461248f33ull, 0xd4a9234c34a96c6ull, 0xd4a9234c34a96c7ull, 0xd4f0db18b947652ull,
0xd4f0db18b947653ull, 0xd505495f9b3ef12ull, 0xd505495f9b3ef13ull, 0xd538750489b0d4dull, 0xd538750489b0d4eull, 0xd543b9a54dfce40ull, 0xd570cc285f2d20aull, 0xd5dc4ef1231b501ull,
0xd5dc4ef1231b502ull, 0xd5f0db18b947652ull, 0xd5f0db18b947653ull, 0xd638750489b0d4dull, 0xd638750489b0d4eull, 0xd643b9a54dfce40ull, 0xd670cc285f2d20aull, 0xd6c7e49d92ecc65ull,
0xd6c7e49d92ecc66ull, 0xd6f0db18b947652ull, 0xd6f0db18b947653ull, 0xd71b4270a43d478ull, 0xd770cc285f2d20aull, 0xd794a80ea17c1d0ull, 0xd7c7e49d92ecc65ull, 0xd7c7e49d92ecc66ull,
0xd7f0db18b947652ull, 0xd7f0db18b947653ull, 0xd814991e4761d87ull, 0xd814991e4761d88ull, 0xd870cc285f2d20aull, 0xd894a80ea17c1d0ull, 0xd8b37a4a02be3c9ull, 0xd8b37a4a02be3caull,
0xd8c7e49d92ecc65ull, 0xd8c7e49d92ecc66ull, 0xd8f0db18b947652ull, 0xd8f0db18b947653ull, 0xd914991e4761d87ull, 0xd914991e4761d88ull, 0xd92f7e0af91d15cull, 0xd957473feaf2f47ull,
0xd9ca71e804f2979ull, 0xd9f0db18b947652ull, 0xd9f0db18b947653ull, 0xda14991e4761d87ull, 0xda14991e4761d88ull, 0xda2f7e0af91d15cull, 0xda6409b425100a8ull, 0xda6409b425100a9ull,
0xdaf0db18b947652ull, 0xdaf0db18b947653ull, 0xdaf9d21249db244ull, 0xdb14991e4761d87ull, 0xdb14991e4761d88ull, 0xdb16338a0f0553full, 0xdb591c133cb8da4ull, 0xdb591c133cb8da5ull,
0xdb9884734e0439aull, 0xdb9884734e0439bull, 0xdbf0db18b947652ull, 0xdbf0db18b947653ull, 0xdbf9d21249db244ull, 0xdc14991e4761d87ull, 0xdc14991e4761d88ull, 0xdc3c51693638f18ull,
0xdc7b5d8db7645b3ull, 0xdcb2c1d2e27e513ull, 0xdcb2c1d2e27e514ull, 0xdcccff3276f868cull, 0xdcccff3276f868dull, 0xdcd79097cf2fa35ull, 0xdcd79097cf2fa36ull, 0xdd14991e4761d87ull,
0xdd14991e4761d88ull, 0xdd3c234b6e28f6aull, 0xdd3c234b6e28f6bull, 0xdd3c51693638f18ull, 0xddbfe082acbb5d0ull, 0xddccff3276f868cull, 0xddccff3276f868dull, 0xddd79097cf2fa35ull,
0xddd79097cf2fa36ull, 0xde3c234b6e28f6aull, 0xde3c234b6e28f6bull, 0xde3c51693638f18ull, 0xde98565585f43edull, 0xdec91433e7e7b18ull, 0xdec91433e7e7b19ull, 0xdeccff3276f868cull,
0xdeccff3276f868dull, 0xdf14c73c0f71d35ull, 0xdf3c234b6e28f6aull, 0xdf3c234b6e28f6bull, 0xdf7dead8296a2c6ull, 0xdf7dead8296a2c7ull, 0xdf8b65c383c72deull, 0xdf98565585f43edull,
0xdff4895f9dbf86full, 0xdff4895f9dbf870ull, 0xe00102257c0e443ull, 0xe00102257c0e444ull, 0xe004273b18918b0ull, 0xe004273b18918b1ull, 0xe07dead8296a2c6ull, 0xe07dead8296a2c7ull,
0xe08b65c383c72deull, 0xe0d05265db8baa7ull, 0xe0f4895f9dbf86full, 0xe0f4895f9dbf870ull, 0xe104273b18918b0ull, 0xe104273b18918b1ull, 0xe1288c52a2d5626ull, 0xe1288c52a2d5627ull,
0xe1e0c4490a5bf7eull, 0xe1ec506e0657604ull, 0xe1f4895f9dbf86full, 0xe1f4895f9dbf870ull, 0xe204273b18918b0ull, 0xe204273b18918b1ull, 0xe2533b95661fc76ull, 0xe2533b95661fc77ull,
0xe2706feccf0d2afull, 0xe27c584d5b28890ull, 0xe2e0c4490a5bf7eull, 0xe2ee3f3464b8f95ull, 0xe2ee3f3464b8f96ull, 0xe304273b18918b0ull, 0xe304273b18918b1ull, 0xe3533b95661fc76ull,
0xe3533b95661fc77ull, 0xe3689336c7c4f9eull, 0xe3689336c7c4f9full, 0xe3706feccf0d2afull, 0xe3c25361c625cf8ull, 0xe3c25361c625cf9ull, 0xe3cb6ca7a8b6c56ull, 0xe404273b18918b0ull,
0xe404273b18918b1ull, 0xe405b9c5e6d32e7ull, 0xe4533b95661fc76ull, 0xe4533b95661fc77ull, 0xe4633d4e6f5bad4ull, 0xe4633d4e6f5bad5ull, 0xe4689336c7c4f9eull, 0xe4689336c7c4f9full,
0xe4d6187859895eaull, 0xe504273b18918b0ull, 0xe504273b18918b1ull, 0xe505b9c5e6d32e7ull, 0xe533b244c3f69c2ull, 0xe533b244c3f69c3ull, 0xe5633d4e6f5bad4ull, 0xe5633d4e6f5bad5ull,
0xe5d6187859895eaull, 0xe6633d4e6f5bad4ull, 0xe6633d4e6f5bad5ull, 0xe66de91f202e468ull, 0xe66de91f202e469ull, 0xe6a0bd64e56c606ull, 0xe6bdf1bc4e59c3eull, 0xe6bdf1bc4e59c3full,
0xe6d6187859895eaull, 0xe6d8c36c85be04full, 0xe7388e0bac11484ull, 0xe7388e0bac11485ull, 0xe760925a432706full, 0xe760925a4327070ull, 0xe7633d4e6f5bad4ull, 0xe7633d4e6f5bad5ull,
0xe7bdf1bc4e59c3eull, 0xe7bdf1bc4e59c3full, 0xe7d8c36c85be04full, 0xe7e36f3d36909e3ull, 0xe827cf82591d57eull, 0xe8388e0bac11484ull, 0xe8388e0bac11485ull, 0xe860925a432706full,
0xe860925a4327070ull, 0xe8d8c36c85be04full, 0xe8dcc3dac80cfe6ull, 0xe8dcc3dac80cfe7ull, 0xe8e36f3d36909e3ull, 0xe9388e0bac11484ull, 0xe9388e0bac11485ull, 0xe959e6f7d4a3673ull,
0xe960925a432706full, 0xe960925a4327070ull, 0xe99eab1a859a02bull, 0xe9b5a892cf104d2ull, 0xe9b5a892cf104d3ull, 0xe9e36f3d36909e3ull, 0xea388e0bac11484ull, 0xea388e0bac11485ull,
0xea44dbab592f590ull, 0xea59e6f7d4a3673ull, 0xea9eab1a859a02bull, 0xeadf4aa876ebe2dull, 0xeb388e0bac11484ull, 0xeb388e0bac11485ull, 0xeb44dbab592f590ull, 0xeb71c362ef64addull,
0xeb71c362ef64adeull, 0xeb7c49092d1eb4full, 0xeb9eab1a859a02bull, 0xebc00406ae2c219ull, 0xebc00406ae2c21aull, 0xec1419aff3c39cdull, 0xec1419aff3c39ceull, 0xec197bb00ebdcafull,
0xec197bb00ebdcb0ull, 0xec7c49092d1eb4full, 0xec8d7a11d95c5bdull, 0xec9eab1a859a02bull, 0xece9a61c5607b74ull, 0xed1419aff3c39cdull, 0xed1419aff3c39ceull, 0xed7c49092d1eb4full,
0xed9612962f7b2f4ull, 0xed9eab1a859a02bull, 0xedd23e348a52f75ull, 0xede9a61c5607b74ull, 0xee1419aff3c39cdull, 0xee1419aff3c39ceull, 0xee7c49092d1eb4full, 0xee8e833709458aaull,
0xee8e833709458abull, 0xee9612962f7b2f4ull, 0xee9a5ed85a8a98full, 0xee9a5ed85a8a990ull, 0xeea7439edbb8d62ull, 0xef1419aff3c39cdull, 0xef1419aff3c39ceull, 0xef514e737e8493cull,
0xef91c654046bc58ull, 0xef91c654046bc59ull, 0xef9a5ed85a8a98full, 0xef9a5ed85a8a990ull, 0xefa7439edbb8d62ull, 0xefffe37de66964cull, 0xefffe37de66964dull, 0xf03d72b724caa09ull,
0xf03d72b724caa0aull, 0xf0514e737e8493cull, 0xf0709515474454full, 0xf07095154744550ull, 0xf0bcc0e9b305e6bull, 0xf0bcc0e9b305e6cull, 0xf0fb973bbb59fb1ull, 0xf1514e737e8493cull,
0xf1679c85949b331ull, 0xf1709515474454full, 0xf17095154744550ull, 0xf1bcc0e9b305e6bull, 0xf1bcc0e9b305e6cull, 0xf1fb973bbb59fb1ull, 0xf22724a50eb4014ull, 0xf22724a50eb4015ull,
0xf2514e737e8493cull, 0xf2679c85949b331ull, 0xf2b199e0a7fa971ull, 0xf2c4e8b226e579eull, 0xf2c4e8b226e579full, 0xf2e6eab822d6793ull, 0xf31d9f2a813bcf1ull, 0xf32724a50eb4014ull,
0xf32724a50eb4015ull, 0xf347c8f8f10c618ull, 0xf347c8f8f10c619ull, 0xf3a5a2105e25b8bull, 0xf3c4e8b226e579eull, 0xf3c4e8b226e579full, 0xf41d9f2a813bcf1ull, 0xf42724a50eb4014ull,
0xf42724a50eb4015ull, 0xf4a5a2105e25b8bull, 0xf4c4e8b226e579eull, 0xf4c4e8b226e579full, 0xf4ca5a487a6de28ull, 0xf4ca5a487a6de29ull, 0xf4d6988e31aa491ull, 0xf52724a50eb4014ull,
0xf52724a50eb4015ull, 0xf54bdcdd2afc2b2ull, 0xf57a1bdc59730c1ull, 0xf5a5a2105e25b8bull, 0xf5d6988e31aa491ull, 0xf5f73ce21402a95ull, 0xf62c963b623c69eull, 0xf62c963b623c69full,
0xf678bf76c490f1eull, 0xf678bf76c490f1full, 0xf67a1bdc59730c1ull, 0xf6a445aac9439e8ull, 0xf6a445aac9439e9ull, 0xf6a5a2105e25b8bull, 0xf6c4e8b226e579eull, 0xf6c4e8b226e579full,
0xf725c83f79d1e72ull, 0xf72c963b623c69eull, 0xf72c963b623c69full, 0xf778bf76c490f1eull, 0xf778bf76c490f1full, 0xf77a1bdc59730c1ull, 0xf7a445aac9439e8ull, 0xf7a445aac9439e9ull,
0xf7f89947a8e4c37ull, 0xf7f89947a8e4c38ull, 0xf825c83f79d1e72ull, 0xf852aad91366adeull, 0xf852aad91366adfull, 0xf878bf76c490f1eull, 0xf878bf76c490f1full, 0xf87a1bdc59730c1ull,
0xf8edb7baa7b8185ull, 0xf8f89947a8e4c37ull, 0xf8f89947a8e4c38ull, 0xf925c83f79d1e72ull, 0xf92c963b623c69eull, 0xf92c963b623c69full, 0xf965b527ebfbcfeull, 0xf965b527ebfbcffull,
0xf978bf76c490f1eull, 0xf978bf76c490f1full, 0xf9eafd4fd80fbdeull, 0xf9eafd4fd80fbdfull, 0xf9f89947a8e4c37ull, 0xf9f89947a8e4c38ull, 0xfa2c963b623c69eull, 0xfa2c963b623c69full,
0xfa65b527ebfbcfeull, 0xfa65b527ebfbcffull, 0xfa6f3a4f584660eull, 0xfa6f3a4f584660full, 0xfa8bc9c59d2613eull, 0xfa8bc9c59d2613full, 0xfab3e9cb8095923ull, 0xfafd5bdb5f0a0bfull,
0xfafd5bdb5f0a0c0ull, 0xfb5c30007fb13eeull, 0xfb5c30007fb13efull, 0xfb6a77bba221186ull, 0xfb6a77bba221187ull, 0xfb6f3a4f584660eull, 0xfb6f3a4f584660full, 0xfb8bc9c59d2613eull,
0xfb8bc9c59d2613full, 0xfbb3e9cb8095923ull, 0xfbfd5bdb5f0a0bfull, 0xfbfd5bdb5f0a0c0ull, 0xfc5c30007fb13eeull, 0xfc5c30007fb13efull, 0xfc6a77bba221186ull, 0xfc6a77bba221187ull,
0xfc6ba8608faa6a8ull, 0xfc6ba8608faa6a9ull, 0xfc6cd9057d33bcaull, 0xfc6cd9057d33bcbull, 0xfc73fce30e6ba96ull, 0xfc73fce30e6ba97ull, 0xfcb3e9cb8095923ull, 0xfd14c958d381ff6ull,
0xfd14c958d381ff7ull, 0xfd681671c70e742ull, 0xfd681671c70e743ull, 0xfd6a77bba221186ull, 0xfd6a77bba221187ull, 0xfd6ba8608faa6a8ull, 0xfd6ba8608faa6a9ull, 0xfd73fce30e6ba96ull,
0xfd73fce30e6ba97ull, 0xfd8bc9c59d2613eull, 0xfd8bc9c59d2613full, 0xfe50498f385409aull, 0xfe50498f385409bull, 0xfe681671c70e742ull, 0xfe681671c70e743ull, 0xfe6b100e18e5c17ull,
0xfe6b100e18e5c18ull, 0xfe6ba8608faa6a8ull, 0xfe6ba8608faa6a9ull, 0xfe6e09aa6abd0ecull, 0xfe6e09aa6abd0edull, 0xfe8bc9c59d2613eull, 0xfe8bc9c59d2613full, 0xff50498f385409aull,
0xff50498f385409bull, 0xff6b100e18e5c17ull, 0xff6b100e18e5c18ull, 0xff6b5c375448160ull, 0xff6ba8608faa6a8ull, 0xff6ba8608faa6a9ull, 0xff6e09aa6abd0ecull, 0xff6e09aa6abd0edull,
0x1005f299cd1888c3ull, 0x1005f299cd1888c4ull, 0x1006b100e18e5c17ull, 0x1006b100e18e5c18ull, 0x1006c8cdc41d1682ull, 0x1006e09aa6abd0ecull, 0x1006e09aa6abd0edull, 0x1008bc9c59d2613eull,
0x1008bc9c59d2613full, 0x100ee127b4231f49ull, 0x1014169819f1f871ull, 0x1014169819f1f872ull, 0x1016699a39e22cd8ull, 0x1016b100e18e5c17ull, 0x1016b100e18e5c18ull, 0x1016c8cdc41d1682ull,
0x1016e09aa6abd0ecull, 0x1016e09aa6abd0edull, 0x1018bc9c59d2613eull, 0x1018bc9c59d2613full, 0x1021169a5315d0e1ull, 0x1021169a5315d0e2ull, 0x1026699a39e22cd8ull, 0x1026e09aa6abd0ecull,
0x1026e09aa6abd0edull, 0x1028bc9c59d2613eull, 0x1028bc9c59d2613full, 0x102c63345295a1b8ull, 0x1030cf33ab69a1a2ull, 0x1036699a39e22cd8ull, 0x1038bc9c59d2613eull, 0x1038bc9c59d2613full,
0x103b0f9e79c295a5ull, 0x103c7b0135245c22ull, 0x103c7b0135245c23ull, 0x103ee127b4231f49ull, 0x1040cf33ab69a1a2ull, 0x104b0f9e79c295a5ull, 0x104cf86316f2da77ull, 0x104e5702e84aec74ull,
0x104e5702e84aec75ull, 0x104f48347c60a1bdull, 0x104f48347c60a1beull, 0x1050cf33ab69a1a2ull, 0x105b0f9e79c295a5ull, 0x105c0400c85ab80eull, 0x105e5702e84aec74ull, 0x105e5702e84aec75ull,
0x105f48347c60a1bdull, 0x105f48347c60a1beull, 0x106057670fff6245ull, 0x106057670fff6246ull, 0x1060cf33ab69a1a2ull, 0x1061be00b39d8513ull, 0x106b89cfa10ea6d9ull, 0x106b89cfa10ea6daull,
0x106c0400c85ab80eull, 0x106e5702e84aec74ull, 0x106e5702e84aec75ull, 0x1070cf33ab69a1a2ull, 0x1075030096440a0aull, 0x1075030096440a0bull, 0x107a956d52768470ull, 0x107a956d52768471ull,
0x107b89cfa10ea6d9ull, 0x107b89cfa10ea6daull, 0x107cf86316f2da77ull, 0x107de0ceaa21e3a8ull, 0x1080cf33ab69a1a2ull, 0x108488cf6ef7f8d6ull, 0x1085030096440a0aull, 0x1085030096440a0bull,
0x108cf86316f2da77ull, 0x108f47684dc00675ull, 0x108f47684dc00676ull, 0x108fbf9b007a9376ull, 0x109488cf6ef7f8d6ull, 0x1095030096440a0aull, 0x1095030096440a0bull, 0x10957a340eb5d4f1ull,
0x1096e0cdb253f7beull, 0x1096e0cdb253f7bfull, 0x1098c09942f569a6ull, 0x1098c09942f569a7ull, 0x109a253472020840ull, 0x10a0df274ff5c342ull, 0x10a4139a6b17b223ull, 0x10a4139a6b17b224ull,
0x10a488cf6ef7f8d6ull, 0x10ab149a9d2e6027ull, 0x10ade2cd1eb367dcull, 0x10ae3f157178ba04ull, 0x10ae3f157178ba05ull, 0x10b4139a6b17b223ull, 0x10b4139a6b17b224ull, 0x10b9ab034ab5f70bull,
0x10b9ab034ab5f70cull, 0x10bb149a9d2e6027ull, 0x10bde2cd1eb367dcull, 0x10c0cef3dcd7711bull, 0x10c0cef3dcd7711cull, 0x10c4139a6b17b223ull, 0x10c4139a6b17b224ull, 0x10c9ab034ab5f70bull,
0x10c9ab034ab5f70cull, 0x10cb8c4db2c48c1aull, 0x10cb8c4db2c48c1bull, 0x10cde2cd1eb367dcull, 0x10d38578b61c76e7ull, 0x10d4139a6b17b223ull, 0x10d4139a6b17b224ull, 0x10d66a19d7068de5ull,
0x10d7cff40eee1f1full, 0x10d9ab034ab5f70bull, 0x10d9ab034ab5f70cull, 0x10db98c40b52065full, 0x10db98c40b520660ull, 0x10e0448f426d0dc0ull, 0x10e0448f426d0dc1ull, 0x10e2adc0333020e9ull,
0x10e2adc0333020eaull, 0x10e4139a6b17b223ull, 0x10e4139a6b17b224ull, 0x10ed675cee8c6407ull, 0x10eed9ad7f016f86ull, 0x10effb94728ec1b3ull, 0x10f2adc0333020e9ull, 0x10f2adc0333020eaull,
0x10f4139a6b17b223ull, 0x10f4139a6b17b224ull, 0x10f5eea9a6df8a10ull, 0x10fda515069fe5f1ull, 0x10fda515069fe5f2ull, 0x10fffb94728ec1b3ull, 0x110208b2522f897eull, 0x110208b2522f897full,
0x1102adc0333020e9ull, 0x1102adc0333020eaull, 0x1108296a9ce8036dull, 0x1108296a9ce8036eull, 0x110be5c440be7069ull, 0x110da515069fe5f1ull, 0x110da515069fe5f2ull, 0x110ffb94728ec1b3ull,
0x1112adc0333020e9ull, 0x1112adc0333020eaull, 0x1118296a9ce8036dull, 0x1118296a9ce8036eull, 0x111a642b92f07ccbull, 0x111be5c440be7069ull, 0x111c707c8e3e5c5dull, 0x11230e265ea39dd1ull,
0x11256b95680c122bull, 0x11256b95680c122cull, 0x1128296a9ce8036dull, 0x1128296a9ce8036eull, 0x112a642b92f07ccbull, 0x112b6a5410976c94ull, 0x112be5c440be7069ull, 0x11330e265ea39dd1ull,
0x1136ca80027a0accull, 0x1136ca80027a0acdull, 0x113779f54fb1071dull, 0x1138296a9ce8036dull, 0x1138296a9ce8036eull, 0x113a642b92f07ccbull, 0x113ae73fd1c3f4afull, 0x113ae73fd1c3f4b0ull,
0x11440caacd9e198aull, 0x11440caacd9e198bull, 0x114779f54fb1071dull, 0x1148296a9ce8036dull, 0x1148296a9ce8036eull, 0x1149e117541d04e6ull, 0x1149e117541d04e7ull, 0x114ae73fd1c3f4afull,
0x114ae73fd1c3f4b0ull, 0x114c707c8e3e5c5dull, 0x11540caacd9e198aull, 0x11540caacd9e198bull, 0x115779f54fb1071dull, 0x1158296a9ce8036dull, 0x1158296a9ce8036eull, 0x115ae73fd1c3f4afull,
0x115ae73fd1c3f4b0ull, 0x115c707c8e3e5c5dull, 0x116122748a5ea3dcull, 0x116122748a5ea3ddull, 0x11640caacd9e198aull, 0x11640caacd9e198bull, 0x116779f54fb1071dull, 0x116ae73fd1c3f4afull,
0x116ae73fd1c3f4b0ull, 0x116db02d4a38c70cull, 0x116db02d4a38c70dull, 0x1172978fabfe5eb3ull, 0x1172978fabfe5eb4ull, 0x11740caacd9e198aull, 0x11740caacd9e198bull, 0x11769c1007bf7101ull,
0x117779f54fb1071dull, 0x1179e117541d04e6ull, 0x1179e117541d04e7ull, 0x117f0f17e4a6bfadull, 0x117f0f17e4a6bfaeull, 0x1182978fabfe5eb3ull, 0x1182978fabfe5eb4ull, 0x1183521d3cce3c1full,
0x11840caacd9e198aull, 0x11840caacd9e198bull, 0x11856609463fa19eull, 0x118779f54fb1071dull, 0x1189e117541d04e6ull, 0x1189e117541d04e7ull, 0x1192978fabfe5eb3ull, 0x1192978fabfe5eb4ull,
0x1193521d3cce3c1full, 0x11963c53800db1cdull, 0x11966fff4af8545dull, 0x11966fff4af8545eull, 0x119779f54fb1071dull, 0x119db5b96c05379aull, 0x11a1167cf9686bf6ull, 0x11a2978fabfe5eb3ull,
0x11a2978fabfe5eb4ull, 0x11a3521d3cce3c1full, 0x11a883eb5469b9dcull, 0x11a883eb5469b9ddull, 0x11acd377a140ef84ull, 0x11acd377a140ef85ull, 0x11adb5b96c05379aull, 0x11b1167cf9686bf6ull,
0x11b2978fabfe5eb3ull, 0x11b2978fabfe5eb4ull, 0x11b3272a7788fd81ull, 0x11b3272a7788fd82ull, 0x11b883eb5469b9dcull, 0x11b883eb5469b9ddull, 0x11bdb5b96c05379aull, 0x11c1167cf9686bf6ull,
0x11c2af7ecdeace80ull, 0x11c2af7ecdeace81ull, 0x11c6484b1103e9b3ull, 0x11c6484b1103e9b4ull, 0x11c883eb5469b9dcull, 0x11c883eb5469b9ddull, 0x11ca04fe06ffac9aull, 0x11cdb5b96c05379aull,
0x11d1167cf9686bf6ull, 0x11d2af7ecdeace80ull, 0x11d2af7ecdeace81ull, 0x11d6484b1103e9b3ull, 0x11d6484b1103e9b4ull, 0x11dbdd5bb982721aull, 0x11dcc98a92c3d4daull, 0x11e3272a7788fd81ull,
0x11e3272a7788fd82ull, 0x11e55c1c37c286f3ull, 0x11e55c1c37c286f4ull, 0x11e6484b1103e9b3ull, 0x11e6484b1103e9b4ull, 0x11ebe9534a78aa00ull, 0x11ebe9534a78aa01ull, 0x11ecc98a92c3d4daull,
0x11ed79e397362019ull, 0x11ed79e39736201aull, 0x11f0a742d78f2966ull, 0x11f0a742d78f2967ull, 0x11f47be4ef775c1aull, 0x11f55c1c37c286f3ull, 0x11f55c1c37c286f4ull, 0x11f6484b1103e9b3ull,
0x11f6484b1103e9b4ull, 0x11f918cf2dbe49daull, 0x11fcc98a92c3d4daull, 0x12047be4ef775c1aull, 0x12055c1c37c286f3ull, 0x12055c1c37c286f4ull, 0x1206484b1103e9b3ull, 0x1206484b1103e9b4ull,
0x120ae5354f4ad773ull, 0x120ae5354f4ad774ull, 0x120b67444ce1c0baull, 0x120c8e7edc737c2aull, 0x12147be4ef775c1aull, 0x1215211081722e43ull, 0x1215211081722e44ull, 0x12185087075f8ecdull,
0x12185087075f8eceull, 0x121ae5354f4ad773ull, 0x121ae5354f4ad774ull, 0x121c8e7edc737c2aull, 0x122002174594573dull, 0x1225211081722e43ull, 0x1225211081722e44ull, 0x12299ade2b553320ull,
0x12299ade2b553321ull, 0x122ae5354f4ad773ull, 0x122ae5354f4ad774ull, 0x122c8e7edc737c2aull, 0x1235211081722e43ull, 0x1235211081722e44ull, 0x12356adf25569d1full, 0x12356adf25569d20ull,
0x123a4009bd50054aull, 0x123ae5354f4ad773ull, 0x123ae5354f4ad774ull, 0x123c44b0388f0d4eull, 0x123d221c243c59e2ull, 0x1245211081722e43ull, 0x1245211081722e44ull, 0x12456adf25569d1full,
0x12456adf25569d20ull, 0x124a4009bd50054aull, 0x124ae5354f4ad773ull, 0x124ae5354f4ad774ull, 0x124c69978a8144bcull, 0x124d221c243c59e2ull, 0x1253b0074dfc03f7ull, 0x1253b0074dfc03f8ull,
0x1255d9951b2d4369ull, 0x1255d9951b2d436aull, 0x1258f5b2995a60f7ull, 0x125ae5354f4ad773ull, 0x125ae5354f4ad774ull, 0x125c2f8c73407bc6ull, 0x125c2f8c73407bc7ull, 0x125c69978a8144bcull,
0x1263b0074dfc03f7ull, 0x1263b0074dfc03f8ull, 0x12645532dff6d621ull, 0x12657d52ce4fb8d6ull, 0x12657d52ce4fb8d7ull, 0x1268f5b2995a60f7ull, 0x126c69978a8144bcull, 0x126ddaa0bdf76f08ull,
0x12745532dff6d621ull, 0x12754f31a7e0f38dull, 0x12757d52ce4fb8d6ull, 0x12757d52ce4fb8d7ull, 0x1276a572bca89b8cull, 0x127c0d553da3ba29ull, 0x127c97b8b0f00a05ull, 0x127c97b8b0f00a06ull,
0x12845532dff6d621ull, 0x12857d52ce4fb8d6ull, 0x12857d52ce4fb8d7ull, 0x1286a572bca89b8cull, 0x128c0d553da3ba29ull, 0x128fe6722f6fb138ull, 0x1291c1feb690caf5ull, 0x1291c1feb690caf6ull,
0x12945532dff6d621ull, 0x12957d52ce4fb8d6ull, 0x12957d52ce4fb8d7ull, 0x129a1dd287b343acull, 0x129a1dd287b343adull, 0x129b26af7d79dfb9ull, 0x129b26af7d79dfbaull, 0x12a1c1feb690caf5ull,
0x12a1c1feb690caf6ull, 0x12a39fa8c27041e6ull, 0x12a45532dff6d621ull, 0x12a57d52ce4fb8d6ull, 0x12a57d52ce4fb8d7ull, 0x12a8520125e4cc48ull, 0x12ac4ecf6bd2c26full, 0x12b22435fbd7575eull,
0x12b22435fbd7575full, 0x12b45532dff6d621ull, 0x12b57d52ce4fb8d6ull, 0x12b57d52ce4fb8d7ull, 0x12b8520125e4cc48ull, 0x12bd19267074d12bull, 0x12c058649a08dffaull, 0x12c22435fbd7575eull,
0x12c22435fbd7575full, 0x12c57d52ce4fb8d6ull, 0x12c57d52ce4fb8d7ull, 0x12c6539a02edd134ull, 0x12c6539a02edd135ull, 0x12c8520125e4cc48ull, 0x12cb91d317c8ebe8ull, 0x12cb91d317c8ebe9ull,
0x12d058649a08dffaull, 0x12d23d80dc6b9936ull, 0x12d88792f30c525full, 0x12d88792f30c5260ull, 0x12da506848dbc75bull, 0x12da506848dbc75cull, 0x12db91d317c8ebe8ull, 0x12db91d317c8ebe9ull,
0x12dc681a4c670446ull, 0x12dc681a4c670447ull, 0x12e058649a08dffaull, 0x12e23d80dc6b9936ull, 0x12e88792f30c525full, 0x12e88792f30c5260ull, 0x12ea0cb3056a9f24ull, 0x12ee66816f5dff5aull,
0x12ef725a71239dcfull, 0x12ef725a71239dd0ull, 0x12f0b860ca0d4c71ull, 0x12f0b860ca0d4c72ull, 0x12f34959de3137abull, 0x12f34959de3137acull, 0x12f46e7dc08b17f8ull, 0x12f46e7dc08b17f9ull,
0x12fa506848dbc75bull, 0x12fa506848dbc75cull, 0x12fe66816f5dff5aull, 0x12ff725a71239dcfull, 0x12ff725a71239dd0ull, 0x1300b860ca0d4c71ull, 0x1300b860ca0d4c72ull, 0x1306cce113867f83ull,
0x1306cce113867f84ull, 0x13075f7304b36faaull, 0x130a506848dbc75bull, 0x130a506848dbc75cull, 0x130ae2fa3a08b782ull, 0x130faefdf96ff4f7ull, 0x1310b860ca0d4c71ull, 0x1310b860ca0d4c72ull,
0x1316cce113867f83ull, 0x1316cce113867f84ull, 0x13175f7304b36faaull, 0x131a506848dbc75bull, 0x131a506848dbc75cull, 0x131ca4bdd4b35b6eull, 0x131f0abfb466fa28ull, 0x131f0abfb466fa29ull,
0x13218796438693bfull, 0x13218796438693c0ull, 0x1326cce113867f83ull, 0x1326cce113867f84ull, 0x13275f7304b36faaull, 0x132a506848dbc75bull, 0x132a506848dbc75cull, 0x132a6483d7236e4cull,
0x132a6483d7236e4dull, 0x132d859fa208ad64ull, 0x13301422850451a3ull, 0x13318796438693bfull, 0x13318796438693c0ull, 0x13348ca715f69262ull, 0x1335ebff46312d8dull, 0x1335ebff46312d8eull,
0x13365c702cdbd688ull, 0x13365c702cdbd689ull, 0x133d859fa208ad64ull, 0x13418796438693bfull, 0x13418796438693c0ull, 0x1345ebff46312d8dull, 0x1345ebff46312d8eull, 0x13462437b986820bull,
0x134bcde9ce81dcf0ull, 0x134bcde9ce81dcf1ull, 0x134dbdd8155e01e1ull, 0x134dbdd8155e01e2ull, 0x134df61088b3565full, 0x13518796438693bfull, 0x13518796438693c0ull, 0x13548ca715f69262ull,
0x1355ebff46312d8dull, 0x1355ebff46312d8eull, 0x135c829cca311442ull, 0x135c829cca311443ull, 0x135d374fc5e04b94ull, 0x135d374fc5e04b95ull, 0x135df61088b3565full, 0x13627383c5456c5eull,
0x13627383c5456c5full, 0x13648ca715f69262ull, 0x1367051986dbd401ull, 0x136cdcf64808afebull, 0x136cdcf64808afecull, 0x136d374fc5e04b94ull, 0x136d374fc5e04b95ull, 0x136df61088b3565full,
0x1370b74604cf8bc7ull, 0x13712d3cc5aef816ull, 0x13712d3cc5aef817ull, 0x13727383c5456c5eull, 0x13727383c5456c5full, 0x1377051986dbd401ull, 0x137cdcf64808afebull, 0x137cdcf64808afecull,
0x137d374fc5e04b94ull, 0x137d374fc5e04b95ull, 0x1380b74604cf8bc7ull, 0x13812d3cc5aef816ull, 0x13812d3cc5aef817ull, 0x13842fc185bb4cf6ull, 0x1387324645c7a1d5ull, 0x1387324645c7a1d6ull,
0x138acf26c7ad3242ull, 0x138fb24e492936f6ull, 0x138fb24e492936f7ull, 0x13912d3cc5aef816ull, 0x13912d3cc5aef817ull, 0x13942fc185bb4cf6ull, 0x139e192f807b50bbull, 0x139fb24e492936f6ull,
0x139fb24e492936f7ull, 0x13a12d3cc5aef816ull, 0x13a12d3cc5aef817ull, 0x13a42fc185bb4cf6ull, 0x13ab451d888c9e91ull, 0x13ab451d888c9e92ull, 0x13ae192f807b50bbull, 0x13afb24e492936f6ull,
0x13afb24e492936f7ull, 0x13b01cea42f6503aull, 0x13b12d3cc5aef816ull, 0x13b12d3cc5aef817ull, 0x13b42fc185bb4cf6ull, 0x13b6392d271dcb54ull, 0x13bc77001829ab95ull, 0x13c12d3cc5aef816ull,
0x13c12d3cc5aef817ull, 0x13c23d8f48679ff3ull, 0x13c42fc185bb4cf6ull, 0x13c93bb1e72a2033ull, 0x13c93bb1e72a2034ull, 0x13cf29820333f897ull, 0x13cf29820333f898ull, 0x13cf4c58194a32a0ull,
0x13d23d8f48679ff3ull, 0x13d42fc185bb4cf6ull, 0x13d53477566c8c25ull, 0x13d93bb1e72a2033ull, 0x13d93bb1e72a2034ull, 0x13dec9fd30f19308ull, 0x13dec9fd30f19309ull, 0x13df29820333f897ull,
0x13df29820333f898ull, 0x13e23d8f48679ff3ull, 0x13e42fc185bb4cf6ull, 0x13e53477566c8c25ull, 0x13e93bb1e72a2033ull, 0x13e93bb1e72a2034ull, 0x13ec02d78c0dd99eull, 0x13ed42ec77e7b442ull,
0x13f1eaf6c9303323ull, 0x13f60aba5f00289eull, 0x13f78f2bd602e741ull, 0x13f78f2bd602e742ull, 0x13f7c03de027aa1aull, 0x13f7c03de027aa1bull, 0x13f93bb1e72a2033ull, 0x13f93bb1e72a2034ull,
0x13fd42ec77e7b442ull, 0x1400880bc7401e76ull, 0x1400880bc7401e77ull, 0x1401eaf6c9303323ull, 0x1405f23159edc731ull, 0x1405f23159edc732ull, 0x14093bb1e72a2033ull, 0x14093bb1e72a2034ull,
0x140d11da6dc2f169ull, 0x140f10f8fe21972bull, 0x1410880bc7401e76ull, 0x1410880bc7401e77ull, 0x14111896a5e11ce2ull, 0x14111896a5e11ce3ull, 0x1415f23159edc731ull, 0x1415f23159edc732ull,
0x141a0e120a793674ull, 0x141e29f2bb04a5b6ull, 0x141e29f2bb04a5b7ull, 0x141f10f8fe21972bull, 0x14250b2b16d0d5bdull, 0x1425f23159edc731ull, 0x1425f23159edc732ull, 0x142a0e120a793674ull,
0x142e1f9fab1db81cull, 0x142e1f9fab1db81dull, 0x142f10f8fe21972bull, 0x1430880bc7401e76ull, 0x1430880bc7401e77ull, 0x143457c42336884aull, 0x143457c42336884bull, 0x14350b2b16d0d5bdull,
0x143a0e120a793674ull, 0x143c124b25939e88ull, 0x1440880bc7401e76ull, 0x1440880bc7401e77ull, 0x14438a8d87dae8d7ull, 0x14478c9e90a50618ull, 0x14478c9e90a50619ull, 0x144a0e120a793674ull,
0x144adb48a5d4d5e7ull, 0x144adb48a5d4d5e8ull, 0x144e91315a09edbaull, 0x144e91315a09edbbull, 0x145048cb468bc208ull, 0x145048cb468bc209ull, 0x1451091a0e06b87bull, 0x1451091a0e06b87cull,
0x145209eff8e4fbf1ull, 0x14538a8d87dae8d7ull, 0x14578c9e90a50618ull, 0x14578c9e90a50619ull, 0x145799866485af19ull, 0x146048cb468bc208ull, 0x146048cb468bc209ull, 0x1461091a0e06b87bull,
0x1461091a0e06b87cull, 0x146209eff8e4fbf1ull, 0x14678c9e90a50618ull, 0x14678c9e90a50619ull, 0x146d0f4d28651040ull, 0x146e91315a09edbaull, 0x146e91315a09edbbull, 0x147048cb468bc208ull,
0x147048cb468bc209ull, 0x14772c772ce78adfull, 0x14778c9e90a50618ull, 0x14778c9e90a50619ull, 0x147d0f4d28651040ull, 0x147e91315a09edbaull, 0x147e91315a09edbbull, 0x148048cb468bc208ull,
0x148048cb468bc209ull, 0x1483eab4eb986410ull, 0x1483eab4eb986411ull, 0x1485cb79de4bcc30ull, 0x148e91315a09edbaull, 0x148e91315a09edbbull, 0x148f20c91e4eae46ull, 0x148f20c91e4eae47ull,
0x1490098ac5d7659aull, 0x1490098ac5d7659bull, 0x149048cb468bc208ull, 0x149048cb468bc209ull, 0x149219c01912130cull, 0x149219c01912130dull, 0x14922990393f2a28ull, 0x14944995aca6eeb5ull,
0x14944995aca6eeb6ull, 0x149e91315a09edbaull, 0x149e91315a09edbbull, 0x14a0098ac5d7659aull, 0x14a0098ac5d7659bull, 0x14a048cb468bc208ull, 0x14a048cb468bc209ull, 0x14a0589b66b8d924ull,
0x14a13145afceea8aull, 0x14a13145afceea8bull, 0x14a22990393f2a28ull, 0x14acc03c87839cb6ull, 0x14acc03c87839cb7ull, 0x14b048cb468bc208ull, 0x14b048cb468bc209ull, 0x14b0589b66b8d924ull,
0x14b0bd087b2d5649ull, 0x14b0bd087b2d564aull, 0x14b22990393f2a28ull, 0x14b91e52e276faaeull, 0x14b91e52e276faafull, 0x14bf79abc34d163cull, 0x14bf79abc34d163dull, 0x14c048cb468bc208ull,
0x14c048cb468bc209ull, 0x14c0589b66b8d924ull, 0x14c082e9e0dc8c29ull, 0x14c22990393f2a28ull, 0x14cda8b6f0c6c538ull, 0x14cda8b6f0c6c539ull, 0x14cf056e8eab81fbull, 0x14cf056e8eab81fcull,
0x14d01e7ccc680f03ull, 0x14d01e7ccc680f04ull, 0x14d22990393f2a28ull, 0x14d493eed4273024ull, 0x14d493eed4273025ull, 0x14d6b3f4478ef4b2ull, 0x14dda8b6f0c6c538ull, 0x14dda8b6f0c6c539ull,
0x14decb4ff45ab7dbull, 0x14e01e7ccc680f03ull, 0x14e01e7ccc680f04ull, 0x14e106f735ab3785ull, 0x14e106f735ab3786ull, 0x14e6b3f4478ef4b2ull, 0x14eda8b6f0c6c538ull, 0x14eda8b6f0c6c539ull,
0x14efede8f7eeaa7dull, 0x14efede8f7eeaa7eull, 0x14eff861fb36ff32ull, 0x14f106f735ab3785ull, 0x14f106f735ab3786ull, 0x14f44c76719a8002ull, 0x14f44c76719a8003ull, 0x14f486950beb4a23ull,
0x14ff4a062c44a0d0ull, 0x14ff4a062c44a0d1ull, 0x14ffede8f7eeaa7dull, 0x14ffede8f7eeaa7eull, 0x150106f735ab3785ull, 0x150106f735ab3786ull, 0x15039e1aa2a821a1ull, 0x150493eed4273024ull,
0x150493eed4273025ull, 0x1504c0b3a63c1443ull, 0x1504c0b3a63c1444ull, 0x150c60f15972b1deull, 0x150c60f15972b1dfull, 0x150e276d28b0ae2eull, 0x1514c0b3a63c1443ull, 0x1514c0b3a63c1444ull,
0x15187a7016ccf101ull, 0x15187a7016ccf102ull, 0x151c60f15972b1deull, 0x151c60f15972b1dfull, 0x151e276d28b0ae2eull, 0x151e8fc0f7902514ull, 0x1524c0b3a63c1443ull, 0x1524c0b3a63c1444ull,
0x15287a7016ccf101ull, 0x15287a7016ccf102ull, 0x152a6db0b81fd170ull, 0x152c4a8ef0683fcfull, 0x152e8fc0f7902514ull, 0x153380864d3cc451ull, 0x1534c0b3a63c1443ull, 0x1534c0b3a63c1444ull,
0x1536872f757a1093ull, 0x15387a7016ccf101ull, 0x15387a7016ccf102ull, 0x153a6db0b81fd170ull, 0x153c4a8ef0683fcfull, 0x154172fd8f381a15ull, 0x154172fd8f381a16ull, 0x1543d2448a17dd14ull,
0x1544c0b3a63c1443ull, 0x1544c0b3a63c1444ull, 0x154503dae15b6a72ull, 0x1546872f757a1093ull, 0x154f15dc44d4e55dull, 0x154f15dc44d4e55eull, 0x1550848e7313e2e6ull, 0x155319d89aba172cull,
0x155319d89aba172dull, 0x1554c0b3a63c1443ull, 0x1554c0b3a63c1444ull, 0x1555c5852b6abd82ull, 0x1555c5852b6abd83ull, 0x1556872f757a1093ull, 0x155f15dc44d4e55dull, 0x155f15dc44d4e55eull,
0x1560848e7313e2e6ull, 0x156319d89aba172cull, 0x156319d89aba172dull, 0x1563ed46207b15b8ull, 0x156bc8262dd0eb2full, 0x156bc8262dd0eb30ull, 0x156f15dc44d4e55dull, 0x156f15dc44d4e55eull,
0x1570848e7313e2e6ull, 0x157b067be3c1981full, 0x157bc8262dd0eb2full, 0x157bc8262dd0eb30ull, 0x157e426ebf13e6d2ull, 0x1580848e7313e2e6ull, 0x158b067be3c1981full, 0x158bc8262dd0eb2full,
0x158bc8262dd0eb30ull, 0x158fa5c5d29dd64full, 0x158fe949ca95e3e9ull, 0x1590848e7313e2e6ull, 0x1594a5b20fd8db9full, 0x1594a5b20fd8dba0ull, 0x1598152a22d8dc9aull, 0x1598152a22d8dc9bull,
0x1598e897a899db26ull, 0x159bc8262dd0eb2full, 0x159bc8262dd0eb30ull, 0x159c580fbb99dc21ull, 0x15a4a5b20fd8db9full, 0x15a4a5b20fd8dba0ull, 0x15a5675c59e82eb0ull, 0x15a66e4f1756df83ull,
0x15a66e4f1756df84ull, 0x15a836ec1ed4e367ull, 0x15a836ec1ed4e368ull, 0x15aa8f72b41bd83dull, 0x15afe3f1238bae7dull, 0x15afe3f1238bae7eull, 0x15b1d6224aec26e8ull, 0x15b4a5b20fd8db9full,
0x15b4a5b20fd8dba0ull, 0x15b66e4f1756df83ull, 0x15b66e4f1756df84ull, 0x15ba8f72b41bd83dull, 0x15bfe3f1238bae7dull, 0x15bfe3f1238bae7eull, 0x15c00d85436e2304ull, 0x15c1db0438b265d1ull,
0x15c58a009397dd91ull, 0x15c58a009397dd92ull, 0x15c66e4f1756df83ull, 0x15c66e4f1756df84ull, 0x15cf22bd92c051efull, 0x15cf22bd92c051f0ull, 0x15cfe3f1238bae7dull, 0x15cfe3f1238bae7eull,
0x15d00d85436e2304ull, 0x15d1d6224aec26e8ull, 0x15d5fc27d5775e8aull, 0x15d5fc27d5775e8bull, 0x15d66e4f1756df83ull, 0x15d66e4f1756df84ull, 0x15dc52b7148fa6b5ull, 0x15dc52b7148fa6b6ull,
0x15deffa29fccac8bull, 0x15deffa29fccac8cull, 0x15e00d85436e2304ull, 0x15e1d6224aec26e8ull, 0x15e6353b76671f07ull, 0x15e66e4f1756df83ull, 0x15e66e4f1756df84ull, 0x15ec52b7148fa6b5ull,
0x15ec52b7148fa6b6ull, 0x15eeffa29fccac8bull, 0x15eeffa29fccac8cull, 0x15f00d85436e2304ull, 0x15f1d6224aec26e8ull, 0x15f6353b76671f07ull, 0x15f66e4f1756df83ull, 0x15f66e4f1756df84ull,
0x15fe8d7b5ded2b92ull, 0x15fe8d7b5ded2b93ull, 0x15fec68efedcec0full, 0x16000d85436e2304ull, 0x1600b8c0263d6479ull, 0x1600b8c0263d647aull, 0x16064baadda730a2ull, 0x160a17f2cb3221d8ull,
0x160a17f2cb3221d9ull, 0x160e8d7b5ded2b92ull, 0x160e8d7b5ded2b93ull, 0x160fa9e063cc5988ull, 0x1610b8c0263d6479ull, 0x1610b8c0263d647aull, 0x161ba6008389068aull, 0x161ba6008389068bull,
0x161bdf142478c707ull, 0x161f70ccc2dc990bull, 0x161f70ccc2dc990cull, 0x161faadd829bee01ull, 0x1620b8c0263d6479ull, 0x1620b8c0263d647aull, 0x162afb4430218f51ull, 0x162afb4430218f52ull,
0x162b6cece299460eull, 0x162ba6008389068aull, 0x162ba6008389068bull, 0x162bdf142478c707ull, 0x162c8a4f0748087cull, 0x162c8a4f0748087dull, 0x1630b8c0263d6479ull, 0x1630b8c0263d647aull,
0x1634cac54ae2b507ull, 0x163b6cece299460eull, 0x163bdf142478c707ull, 0x163c8a4f0748087cull, 0x163c8a4f0748087dull, 0x1643496128b66f2full, 0x1643496128b66f30ull, 0x164491b1a9f2f48aull,
0x164491b1a9f2f48bull, 0x1645685978b7c329ull, 0x164b6cece299460eull, 0x164bde959510fccaull, 0x164bde959510fccbull, 0x164c8a4f0748087cull, 0x164c8a4f0748087dull, 0x1653496128b66f2full,
0x1653496128b66f30ull, 0x165491b1a9f2f48aull, 0x165491b1a9f2f48bull, 0x165dfd8de51250c4ull, 0x165f693b9143d007ull, 0x1663496128b66f2full, 0x1663496128b66f30ull, 0x166491b1a9f2f48aull,
0x166491b1a9f2f48bull, 0x16668fd901483987ull, 0x166ac8c4a1fb0360ull, 0x166ac8c4a1fb0361ull, 0x166dfd8de51250c4ull, 0x166f693b9143d007ull, 0x16711dbf428a7c5bull, 0x16711dbf428a7c5cull,
0x1673496128b66f2full, 0x1673496128b66f30ull, 0x167491b1a9f2f48aull, 0x167491b1a9f2f48bull, 0x16767e2a6bcdbc93ull, 0x167ac8c4a1fb0360ull, 0x167ac8c4a1fb0361ull, 0x167e88765e9d4d79ull,
0x1682339035a075c5ull, 0x1682339035a075c6ull, 0x1682be78af2b727aull, 0x1682be78af2b727bull, 0x1683496128b66f2full, 0x1683496128b66f30ull, 0x168491b1a9f2f48aull, 0x168491b1a9f2f48bull,
0x168cfab1a09b49c3ull, 0x168cfab1a09b49c4ull, 0x168e88765e9d4d79ull, 0x1691eaf66ca0cda3ull, 0x1691eaf66ca0cda4ull, 0x1692be78af2b727aull, 0x1692be78af2b727bull, 0x169303ecebf0f0d5ull,
0x1693496128b66f2full, 0x1693496128b66f30ull, 0x1698c631a5471f27ull, 0x169e88765e9d4d79ull, 0x16a092d6c8ff7fa6ull, 0x16a092d6c8ff7fa7ull, 0x16a303ecebf0f0d5ull, 0x16a3496128b66f2full,
0x16a3496128b66f30ull, 0x16a8c631a5471f27ull, 0x16ae88765e9d4d79ull, 0x16b1ee1bf8daf76bull, 0x16b303ecebf0f0d5ull, 0x16b3496128b66f2full, 0x16b3496128b66f30ull, 0x16b8c631a5471f27ull,
0x16bba75401f23650ull, 0x16bccb579eaee79aull, 0x16c303ecebf0f0d5ull, 0x16c3496128b66f2full, 0x16c3496128b66f30ull, 0x16c7e7a2454fec37ull, 0x16c7e7a2454fec38ull, 0x16c8c631a5471f27ull,
0x16ca36c2d39caabbull, 0x16ca36c2d39caabcull, 0x16cc406f2523eae5ull, 0x16d303ecebf0f0d5ull, 0x16d3496128b66f2full, 0x16d3496128b66f30ull, 0x16d8c631a5471f27ull, 0x16da36c2d39caabbull,
0x16da36c2d39caabcull, 0x16dc406f2523eae5ull, 0x16dfb006a5c3acbbull, 0x16e0b4cc5da43251ull, 0x16e1dc5ca4ca9193ull, 0x16e30575ff6d09daull, 0x16e30575ff6d09dbull, 0x16ea36c2d39caabbull,
0x16ea36c2d39caabcull, 0x16ed9bb454ff62a9ull, 0x16ed9bb454ff62aaull, 0x16eed503f03627c3ull, 0x16eed503f03627c4ull, 0x16f0b4cc5da43251ull, 0x16f1dc5ca4ca9193ull, 0x16f482b0c3ed3449ull,
0x16f482b0c3ed344aull, 0x16fa36c2d39caabbull, 0x16fa36c2d39caabcull, 0x16fed503f03627c3ull, 0x16fed503f03627c4ull, 0x1700b4cc5da43251ull, 0x170192789300f9c2ull, 0x170192789300f9c3ull,
0x170a80a6e566428cull, 0x170bf21b3e56399eull, 0x170bf21b3e56399full, 0x170cdd16f2bf4d72ull, 0x1710b4cc5da43251ull, 0x1712320722245cc0ull, 0x171a80a6e566428cull, 0x171c1e79907f383aull,
0x171c1e79907f383bull, 0x171f2357d703d90aull, 0x1720b4cc5da43251ull, 0x1722320722245cc0ull, 0x17259ab9a1853a6eull, 0x17259ab9a1853a6full, 0x1727ec121a5405adull, 0x1727ec121a5405aeull,
0x172a80a6e566428cull, 0x172e64ba74c3c3d2ull, 0x172e64ba74c3c3d3ull, 0x1730b4cc5da43251ull, 0x17310ee6b00216f4ull, 0x1733e07d2c0cb1e9ull, 0x17359ab9a1853a6eull, 0x17359ab9a1853a6full,
0x17387da253652893ull, 0x17387da253652894ull, 0x173f87dae6e6099eull, 0x173f87dae6e6099full, 0x17407d5676f0f40eull, 0x1740b4cc5da43251ull, 0x17410ee6b00216f4ull, 0x1748c66a6fedba06ull,
0x1748c66a6fedba07ull, 0x174d419a02a17e06ull, 0x174d419a02a17e07ull, 0x174f87dae6e6099eull, 0x174f87dae6e6099full, 0x1750348e5a68629bull, 0x175090684f5fe997ull, 0x175090684f5fe998ull,
0x17510ee6b00216f4ull, 0x1758eace7e3202c0ull, 0x175d419a02a17e06ull, 0x175d419a02a17e07ull, 0x175f87dae6e6099eull, 0x175f87dae6e6099full, 0x1760102a4c2419e1ull, 0x1760102a4c2419e2ull,
0x176090684f5fe997ull, 0x176090684f5fe998ull, 0x17610ee6b00216f4ull, 0x176d05cf8e78eaf7ull, 0x176d05cf8e78eaf8ull, 0x176ead82914c5545ull, 0x176ead82914c5546ull, 0x176ff50711b2e3cbull,
0x177058f268acab54ull, 0x177058f268acab55ull, 0x177090684f5fe997ull, 0x177090684f5fe998ull, 0x1774ab695fa6d1cfull, 0x1774cfcd6deb1a88ull, 0x1774cfcd6deb1a89ull, 0x1776cb1beeec6a47ull,
0x1776cb1beeec6a48ull, 0x177f6376d8a1c0e5ull, 0x1781c4daf7578293ull, 0x1781c4daf7578294ull, 0x1784ab695fa6d1cfull, 0x1785615da6fc3d6eull, 0x1785615da6fc3d6full, 0x178df78e49f6e9a6ull,
0x178f25821dbe8370ull, 0x1792898c89a68ef0ull, 0x1792898c89a68ef1ull, 0x1794ab695fa6d1cfull, 0x17961751ee51a90eull, 0x1799e875beb2aa9full, 0x1799e875beb2aaa0ull, 0x179fb71256cfa656ull,
0x17a21f15374309c3ull, 0x17a21f15374309c4ull, 0x17a4ab695fa6d1cfull, 0x17a61751ee51a90eull, 0x17aa313ddb3b3c12ull, 0x17aa313ddb3b3c13ull, 0x17ac74c9e71672abull, 0x17ad953580cf6377ull,
0x17ad953580cf6378ull, 0x17b0917d72bd3ecaull, 0x17b0917d72bd3ecbull, 0x17b22733c07f08c2ull, 0x17b2898c89a68ef0ull, 0x17b2898c89a68ef1ull, 0x17b4ab695fa6d1cfull, 0x17bc992df55abb64ull,
0x17bc992df55abb65ull, 0x17bd953580cf6377ull, 0x17bd953580cf6378ull, 0x17c2898c89a68ef0ull, 0x17c2898c89a68ef1ull, 0x17c4ab695fa6d1cfull, 0x17c7135979c65121ull, 0x17cb9d2669e61351ull,
0x17cb9d2669e61352ull, 0x17cc992df55abb64ull, 0x17cc992df55abb65ull, 0x17cdcd26026a7b0dull, 0x17cdcd26026a7b0eull, 0x17d4116d591ef1faull, 0x17d4116d591ef1fbull, 0x17d7135979c65121ull,
0x17db9d2669e61351ull, 0x17db9d2669e61352ull, 0x17dc992df55abb64ull, 0x17dc992df55abb65ull, 0x17de672208f25ae2ull, 0x17e22733c07f08c2ull, 0x17e4116d591ef1faull, 0x17e4116d591ef1fbull,
0x17e7135979c65121ull, 0x17eb9d2669e61351ull, 0x17eb9d2669e61352ull, 0x17ed26898e842c0bull, 0x17ed26898e842c0cull, 0x17ef9b1a16021a8bull, 0x17f22733c07f08c2ull, 0x17f4116d591ef1faull,
0x17f4116d591ef1fbull, 0x17f7135979c65121ull, 0x17fe75920fb13dafull, 0x17fe75920fb13db0ull, 0x17ff1d165047c681ull, 0x17ff1d165047c682ull, 0x17ff9b1a16021a8bull, 0x1801ef7d320fffa0ull,
0x1804116d591ef1faull, 0x1804116d591ef1fbull, 0x1805536186957789ull, 0x1807135979c65121ull, 0x180a934960280451ull, 0x180f1d165047c681ull, 0x180f1d165047c682ull, 0x1814116d591ef1faull,
0x1814116d591ef1fbull, 0x1816335d802de455ull, 0x1817135979c65121ull, 0x181a934960280451ull, 0x181d092bf226f1caull, 0x181d092bf226f1cbull, 0x181f1d165047c681ull, 0x181f1d165047c682ull,
0x1826097c70084220ull, 0x1826097c70084221ull, 0x1826335d802de455ull, 0x18265d3e90538689ull, 0x18265d3e9053868aull, 0x1826a35b7cfa1abbull, 0x182a934960280451ull, 0x1836097c70084220ull,
0x1836097c70084221ull, 0x1836335d802de455ull, 0x18366b5c7e93ff88ull, 0x18386353702af453ull, 0x1846097c70084220ull, 0x1846097c70084221ull, 0x1846335d802de455ull, 0x18464f5cff60f1eeull,
0x18464f5cff60f1efull, 0x18466b5c7e93ff88ull, 0x18474b58782c6c54ull, 0x18509195980f9a25ull, 0x18509195980f9a26ull, 0x1856097c70084220ull, 0x1856097c70084221ull, 0x1856335d802de455ull,
0x1856bf5afc2d2854ull, 0x1856bf5afc2d2855ull, 0x1856dae1c0c46d27ull, 0x1860bb76a8353c5aull, 0x1866097c70084220ull, 0x1866097c70084221ull, 0x1866335d802de455ull, 0x1868ef50ec2a3852ull,
0x1868ef50ec2a3853ull, 0x186c06339e38ff6aull, 0x1870bb76a8353c5aull, 0x1876335d802de455ull, 0x18791cc88f3371dfull, 0x18791cc88f3371e0ull, 0x187c06339e38ff6aull, 0x187d1e2e96378769ull,
0x187e6737c422e04dull, 0x187e6737c422e04eull, 0x1880bb76a8353c5aull, 0x1886335d802de455ull, 0x1886dae1c0c46d27ull, 0x1889a8c60b32b5dfull, 0x188e6737c422e04dull, 0x188e6737c422e04eull,
0x1894ea5452428b70ull, 0x1894ea5452428b71ull, 0x1896335d802de455ull, 0x1897ee11c5b04d1aull, 0x1899a8c60b32b5dfull, 0x189dd7a3b54004f5ull, 0x189dd7a3b54004f6ull, 0x189e6737c422e04dull,
0x189e6737c422e04eull, 0x18a4ea5452428b70ull, 0x18a4ea5452428b71ull, 0x18a6335d802de455ull, 0x18a710b7a2ef18b7ull, 0x18a710b7a2ef18b8ull, 0x18a9a8c60b32b5dfull, 0x18add7a3b54004f5ull,
0x18add7a3b54004f6ull, 0x18b1153331830571ull, 0x18b4ea5452428b70ull, 0x18b4ea5452428b71ull, 0x18b556035d6caff2ull, 0x18b556035d6caff3ull, 0x18b710b7a2ef18b7ull, 0x18b710b7a2ef18b8ull,
0x18b9a8c60b32b5dfull, 0x18c1153331830571ull, 0x18c2f9c6e3c0a9baull, 0x18c9a8c60b32b5dfull, 0x18cdb3beb1874e1full, 0x18cdb3beb1874e20ull, 0x18cde996371c6060ull, 0x18cde996371c6061ull,
0x18cef0d30d6d9da8ull, 0x18d1153331830571ull, 0x18d2f9c6e3c0a9baull, 0x18d54410db905487ull, 0x18d54410db905488ull, 0x18d9a8c60b32b5dfull, 0x18ddb3beb1874e1full, 0x18ddb3beb1874e20ull,
0x18dde996371c6060ull, 0x18dde996371c6061ull, 0x18e1153331830571ull, 0x18e13918353bbc47ull, 0x18e9a8c60b32b5dfull, 0x18ebc4b180b07445ull, 0x18edb3beb1874e1full, 0x18edb3beb1874e20ull,
0x18ede09cf62e32abull, 0x18f13918353bbc47ull, 0x18fbc4b180b07445ull, 0x18fbf310030260acull, 0x18fbf310030260adull, 0x18fdb3beb1874e1full, 0x18fdb3beb1874e20ull, 0x18fde09cf62e32abull,
0x19013918353bbc47ull, 0x1903282566129621ull, 0x1903282566129622ull, 0x190bc4b180b07445ull, 0x190bf310030260acull, 0x190bf310030260adull, 0x190cd2a73b6f5378ull, 0x19113918353bbc47ull,
0x1913282566129621ull, 0x1913282566129622ull, 0x191ae45a296dfd8bull, 0x191ae45a296dfd8cull, 0x191bc4b180b07445ull, 0x191c4bac5e0fe3deull, 0x191c4bac5e0fe3dfull, 0x191cd2a73b6f5378ull,
0x19213918353bbc47ull, 0x192682a57521abecull, 0x192a5cff3ca3cbfbull, 0x192bc4b180b07445ull, 0x192e6797d38da244ull, 0x192e6797d38da245ull, 0x19313918353bbc47ull, 0x1933ddded52eb419ull,
0x1933ddded52eb41aull, 0x193624f849f2ee33ull, 0x193624f849f2ee34ull, 0x193bc4b180b07445ull, 0x193e6797d38da244ull, 0x193e6797d38da245ull, 0x19413918353bbc47ull, 0x19438211f715c034ull,
0x194bc4b180b07445ull, 0x194e6797d38da244ull, 0x194e6797d38da245ull, 0x194f764dad220565ull, 0x194f764dad220566ull, 0x194fe601457dce4dull, 0x194fe601457dce4eull, 0x19513918353bbc47ull,
0x19538211f715c034ull, 0x1956e42d02eb0438ull, 0x195ca5f8fe7dcfe8ull, 0x195e6797d38da244ull, 0x195e6797d38da245ull, 0x195fe601457dce4dull, 0x195fe601457dce4eull, 0x19613918353bbc47ull,
0x196164a643ecf9f2ull, 0x19638211f715c034ull, 0x196e6797d38da244ull, 0x196e6797d38da245ull, 0x196f764dad220565ull, 0x196f764dad220566ull, 0x196f8c14b47aa43bull, 0x197111cfb833082dull,
0x197111cfb833082eull, 0x197164a643ecf9f2ull, 0x1978629674db3041ull, 0x197e6797d38da244ull, 0x197e6797d38da245ull, 0x197f764dad220565ull, 0x197f764dad220566ull, 0x197f8c14b47aa43bull,
0x198164a643ecf9f2ull, 0x1988629674db3041ull, 0x198a2cf604c30d3full, 0x198a2cf604c30d40ull, 0x198bf75594aaea3eull, 0x198c9d3843a5c546ull, 0x198f764dad220565ull, 0x198f764dad220566ull,
0x19935ac97a0d0c1aull, 0x19935ac97a0d0c1bull, 0x1994cdd7550b7644ull, 0x1995bdcfd4e8386eull, 0x1995bdcfd4e8386full, 0x1998629674db3041ull, 0x199a2cf604c30d3full, 0x199a2cf604c30d40ull,
0x199f764dad220565ull, 0x199f764dad220566ull, 0x19a32f209f9852b0ull, 0x19a35ac97a0d0c1aull, 0x19a35ac97a0d0c1bull, 0x19a4cdd7550b7644ull, 0x19aa2cf604c30d3full, 0x19aa2cf604c30d40ull,
0x19aa9a0ec1051eeaull, 0x19adc1b52492c73cull, 0x19adc1b52492c73dull, 0x19b32f209f9852b0ull, 0x19b35ac97a0d0c1aull, 0x19b35ac97a0d0c1bull, 0x19b4cdd7550b7644ull, 0x19ba2cf604c30d3full,
0x19ba2cf604c30d40ull, 0x19ba9a0ec1051eeaull, 0x19bdc1b52492c73cull, 0x19bdc1b52492c73dull, 0x19c2341c6a6a077bull, 0x19c2341c6a6a077cull, 0x19c35ac97a0d0c1aull, 0x19c35ac97a0d0c1bull,
0x19ca014d2a4e53d5ull, 0x19ca9a0ec1051eeaull, 0x19cdc1b52492c73cull, 0x19cdc1b52492c73dull, 0x19ce44ca7fb46f3bull, 0x19ce44ca7fb46f3cull, 0x19d35ac97a0d0c1aull, 0x19d35ac97a0d0c1bull,
0x19d3f38b10c3d72full, 0x19d3f38b10c3d730ull, 0x19d5612ddcdcf893ull, 0x19d5612ddcdcf894ull, 0x19d7fae8c77e675cull, 0x19da014d2a4e53d5ull, 0x19de44ca7fb46f3bull, 0x19de44ca7fb46f3cull,
0x19e02db8079a1b02ull, 0x19e02db8079a1b03ull, 0x19e3f38b10c3d72full, 0x19e3f38b10c3d730ull, 0x19e5612ddcdcf893ull, 0x19e5612ddcdcf894ull, 0x19e7fae8c77e675cull, 0x19ed2e5e9cc144edull,
0x19efc2ae787d6af0ull, 0x19f1fc2e959ecd85ull, 0x19f687daec7ffd32ull, 0x19f687daec7ffd33ull, 0x19fb5fe80ebc926aull, 0x19fb5fe80ebc926bull, 0x19fd2e5e9cc144edull, 0x19fec4e755fabd79ull,
0x1a0275a717fadb7bull, 0x1a0687daec7ffd32ull, 0x1a0687daec7ffd33ull, 0x1a0805bee548f8e7ull, 0x1a0d2e5e9cc144edull, 0x1a0df9a2f95e0133ull, 0x1a0ec4e755fabd79ull, 0x1a128f851d704fd4ull,
0x1a128f851d704fd5ull, 0x1a153db2fea1ea31ull, 0x1a1d2e5e9cc144edull, 0x1a1e5f4527ac5f56ull, 0x1a1e78868a9f57eeull, 0x1a1e78868a9f57efull, 0x1a1ec4e755fabd79ull, 0x1a253db2fea1ea31ull,
0x1a2d2e5e9cc144edull, 0x1a2e5f4527ac5f56ull, 0x1a2e78868a9f57eeull, 0x1a2e78868a9f57efull, 0x1a2e92163ed38e67ull, 0x1a2e92163ed38e68ull, 0x1a2f2a8984491b9cull, 0x1a353db2fea1ea31ull,
0x1a38e86ebd513a82ull, 0x1a38e86ebd513a83ull, 0x1a3e2c7410853044ull, 0x1a3e2c7410853045ull, 0x1a3f2a8984491b9cull, 0x1a453db2fea1ea31ull, 0x1a475fe72336d4b5ull, 0x1a4a341e417582e6ull,
0x1a4a341e417582e7ull, 0x1a4c627d9da20ce6ull, 0x1a4e2c7410853044ull, 0x1a4e2c7410853045ull, 0x1a4f2a8984491b9cull, 0x1a537a95f2adb141ull, 0x1a537a95f2adb142ull, 0x1a553db2fea1ea31ull,
0x1a575fe72336d4b5ull, 0x1a58d0184e21fb8bull, 0x1a58d0184e21fb8cull, 0x1a5a341e417582e6ull, 0x1a5a341e417582e7ull, 0x1a5e2c7410853044ull, 0x1a5e2c7410853045ull, 0x1a61ab4daf21d8d6ull,
0x1a61ab4daf21d8d7ull, 0x1a61c3a41e5117cdull, 0x1a61c3a41e5117ceull, 0x1a637a95f2adb141ull, 0x1a637a95f2adb142ull, 0x1a653db2fea1ea31ull, 0x1a6c5652660a6d6aull, 0x1a6c5652660a6d6bull,
0x1a6e196f71fea65aull, 0x1a71ab4daf21d8d6ull, 0x1a71ab4daf21d8d7ull, 0x1a71b778e6b97852ull, 0x1a737a95f2adb141ull, 0x1a737a95f2adb142ull, 0x1a7e196f71fea65aull, 0x1a7ea1fc7b23e0fbull,
0x1a81b778e6b97852ull, 0x1a837a95f2adb141ull, 0x1a837a95f2adb142ull, 0x1a8a870a227e94ffull, 0x1a8a870a227e9500ull, 0x1a8e196f71fea65aull, 0x1a8ee642ffb67e4bull, 0x1a8ee642ffb67e4cull,
0x1a91b778e6b97852ull, 0x1a937a95f2adb141ull, 0x1a937a95f2adb142ull, 0x1a954b1b48a8f453ull, 0x1a99306c793217c6ull, 0x1a99306c793217c7ull, 0x1a9b00f1cf2d5ad8ull, 0x1a9ef4e85c2cf314ull,
0x1aa1b778e6b97852ull, 0x1aa37a95f2adb141ull, 0x1aa37a95f2adb142ull, 0x1aab00f1cf2d5ad8ull, 0x1aacc40edb2193c7ull, 0x1aacc40edb2193c8ull, 0x1aaec43b7dce7526ull, 0x1ab1b778e6b97852ull,
0x1ab440b55b620422ull, 0x1ab506d4c4165702ull, 0x1ab506d4c4165703ull, 0x1ab83dda3243f6bcull, 0x1ab974b2fdc4b517ull, 0x1aba3ad2667907f7ull, 0x1aba3ad2667907f8ull, 0x1ac0e097217c58c7ull,
0x1ac1b778e6b97852ull, 0x1ac506d4c4165702ull, 0x1ac506d4c4165703ull, 0x1ac974b2fdc4b517ull, 0x1acd9af0a05eb352ull, 0x1acd9af0a05eb353ull, 0x1acdd665ffdb73b0ull, 0x1ad0e097217c58c7ull,
0x1ad1b778e6b97852ull, 0x1ad4faa98c7eb787ull, 0x1ad625572067d666ull, 0x1ad625572067d667ull, 0x1adc34cdacf8d415ull, 0x1adc34cdacf8d416ull, 0x1add9af0a05eb352ull, 0x1add9af0a05eb353ull,
0x1ae0e097217c58c7ull, 0x1ae4faa98c7eb787ull, 0x1ae625572067d666ull, 0x1ae625572067d667ull, 0x1ae92d1266b0553eull, 0x1aed9af0a05eb352ull, 0x1aed9af0a05eb353ull, 0x1af05155f3539915ull,
0x1af3059e188e6fdbull, 0x1af625572067d666ull, 0x1af625572067d667ull, 0x1af92d1266b0553eull, 0x1afb75e9a94c9c3eull, 0x1afb75e9a94c9c3full, 0x1afd9af0a05eb352ull, 0x1afd9af0a05eb353ull,
0x1b005155f3539915ull, 0x1b02e1cdcd043feeull, 0x1b02e1cdcd043fefull, 0x1b04faa98c7eb787ull, 0x1b0d2405e1653297ull, 0x1b0d2405e1653298ull, 0x1b0d9af0a05eb352ull, 0x1b0d9af0a05eb353ull,
0x1b0e4e021a11a2f1ull, 0x1b11f31a9d056451ull, 0x1b14faa98c7eb787ull, 0x1b174fac06b29e03ull, 0x1b1d9af0a05eb352ull, 0x1b1d9af0a05eb353ull, 0x1b1e4e021a11a2f1ull, 0x1b1f7857005c6a8dull,
0x1b1f7857005c6a8eull, 0x1b21f31a9d056451ull, 0x1b274fac06b29e03ull, 0x1b29a455d3482d3cull, 0x1b2d9af0a05eb352ull, 0x1b2d9af0a05eb353ull, 0x1b2e4e021a11a2f1ull, 0x1b2f7857005c6a8dull,
0x1b2f7857005c6a8eull, 0x1b31f31a9d056451ull, 0x1b35901681dadcc7ull, 0x1b35901681dadcc8ull, 0x1b374fac06b29e03ull, 0x1b3bf92bf6ace816ull, 0x1b3bf92bf6ace817ull, 0x1b3c43cc45f364e6ull,
0x1b3e4e021a11a2f1ull, 0x1b409bf6429a15e4ull, 0x1b409bf6429a15e5ull, 0x1b45901681dadcc7ull, 0x1b45901681dadcc8ull, 0x1b487a599a9bbce2ull, 0x1b487a599a9bbce3ull, 0x1b49a455d3482d3cull,
0x1b4c43cc45f364e6ull, 0x1b4e4e021a11a2f1ull, 0x1b525b8bc771d720ull, 0x1b533b405e7621edull, 0x1b55901681dadcc7ull, 0x1b55901681dadcc8ull, 0x1b5c43cc45f364e6ull, 0x1b5ebddc6593c857ull,
0x1b5ebddc6593c858ull, 0x1b5ee36f0f6dc831ull, 0x1b5ee36f0f6dc832ull, 0x1b6006b5a40d1c45ull, 0x1b6006b5a40d1c46ull, 0x1b625b8bc771d720ull, 0x1b6532d934768bacull, 0x1b6532d934768badull,
0x1b6ebddc6593c857ull, 0x1b6ebddc6593c858ull, 0x1b6ee36f0f6dc831ull, 0x1b6ee36f0f6dc832ull, 0x1b7006b5a40d1c45ull, 0x1b7006b5a40d1c46ull, 0x1b725b8bc771d720ull, 0x1b7dde27ce8f7d8aull,
0x1b7dde27ce8f7d8bull, 0x1b7ebddc6593c857ull, 0x1b7ebddc6593c858ull, 0x1b7ee36f0f6dc831ull, 0x1b7ee36f0f6dc832ull, 0x1b8006b5a40d1c45ull, 0x1b8006b5a40d1c46ull, 0x1b80101a4e839c3cull,
0x1b86f26eb94e4ce8ull, 0x1b87751259bd723bull, 0x1b87751259bd723cull, 0x1b8a26f973b7528full, 0x1b8a26f973b75290ull, 0x1b8ebddc6593c857ull, 0x1b8ebddc6593c858ull, 0x1b9006b5a40d1c45ull,
0x1b9006b5a40d1c46ull, 0x1b90101a4e839c3cull, 0x1b93bde3fee54740ull, 0x1b93bde3fee54741ull, 0x1b96f26eb94e4ce8ull, 0x1b9a26f973b7528full, 0x1b9a26f973b75290ull, 0x1b9fe395220ae5c9ull,
0x1b9fe395220ae5caull, 0x1ba130b1dcb98c9full, 0x1ba135d30afab9aeull, 0x1ba1e24cd17931c3ull, 0x1ba3bde3fee54740ull, 0x1ba3bde3fee54741ull, 0x1bab2c40b4959d36ull, 0x1bab2c40b4959d37ull,
0x1bafe395220ae5c9ull, 0x1bafe395220ae5caull, 0x1bb135d30afab9aeull, 0x1bb1e24cd17931c3ull, 0x1bbb2c40b4959d36ull, 0x1bbb2c40b4959d37ull, 0x1bbcaf0a67a1e022ull, 0x1bbfe395220ae5c9ull,
0x1bbfe395220ae5caull, 0x1bc135d30afab9aeull, 0x1bc1e24cd17931c3ull, 0x1bc748ab9c8d88f2ull, 0x1bc748ab9c8d88f3ull, 0x1bcb2c40b4959d36ull, 0x1bcb2c40b4959d37ull, 0x1bccaf0a67a1e022ull,
0x1bcfe395220ae5c9ull, 0x1bcfe395220ae5caull, 0x1bd130b1dcb98c9full, 0x1bd1e24cd17931c3ull, 0x1bd58347cdb96819ull, 0x1bd58347cdb9681aull, 0x1bdaffd9f765b3edull, 0x1bdaffd9f765b3eeull,
0x1bdb850e2ef56fc8ull, 0x1bdb850e2ef56fc9ull, 0x1bde746e367600fbull, 0x1be1e24cd17931c3ull, 0x1be20eb38ea91b0cull, 0x1be665f9b5237886ull, 0x1beaa70c7d05e15bull, 0x1beaa70c7d05e15cull,
0x1beae9a698cdbf49ull, 0x1bee746e367600fbull, 0x1bf20eb38ea91b0cull, 0x1bf665f9b5237886ull, 0x1bfa6d33f5ccbcc0ull, 0x1bfa6d33f5ccbcc1ull, 0x1bfaa70c7d05e15bull, 0x1bfaa70c7d05e15cull,
0x1bfe746e367600fbull, 0x1bff57201de01167ull, 0x1bff57201de01168ull, 0x1c020eb38ea91b0cull, 0x1c04d3b58883de9full, 0x1c0665f9b5237886ull, 0x1c0a6d33f5ccbcc0ull, 0x1c0a6d33f5ccbcc1ull,
0x1c0f2ab960b0281eull, 0x1c0f2ab960b0281full, 0x1c0f57201de01167ull, 0x1c0f57201de01168ull, 0x1c10cc7b47da9a64ull, 0x1c10cc7b47da9a65ull, 0x1c119fb2b5b153d5ull, 0x1c119fb2b5b153d6ull,
0x1c120eb38ea91b0cull, 0x1c169260725361cfull, 0x1c1f2ab960b0281eull, 0x1c1f2ab960b0281full, 0x1c1f57201de01167ull, 0x1c1f57201de01168ull, 0x1c20cc7b47da9a64ull, 0x1c20cc7b47da9a65ull,
0x1c269260725361cfull, 0x1c29bda1b0973346ull, 0x1c2bff78226c56a7ull, 0x1c2bff78226c56a8ull, 0x1c2ce8e2eedb04bdull, 0x1c2dab4c20263407ull, 0x1c2dab4c20263408ull, 0x1c30cc7b47da9a64ull,
0x1c30cc7b47da9a65ull, 0x1c369260725361cfull, 0x1c39bda1b0973346ull, 0x1c3bff78226c56a7ull, 0x1c3bff78226c56a8ull, 0x1c3cd56221494557ull, 0x1c3cd56221494558ull, 0x1c403bddf5cbbee1ull,
0x1c434e3944716674ull, 0x1c434e3944716675ull, 0x1c47f6353238f6c3ull, 0x1c47f6353238f6c4ull, 0x1c48280111754a8aull, 0x1c48280111754a8bull, 0x1c49bda1b0973346ull, 0x1c4bff78226c56a7ull,
0x1c4bff78226c56a8ull, 0x1c500a12168f6b1aull, 0x1c513770474911bcull, 0x1c513770474911bdull, 0x1c534e3944716674ull, 0x1c534e3944716675ull, 0x1c57a6d8b36ede8eull, 0x1c58280111754a8aull,
0x1c58280111754a8bull, 0x1c5e97697d9b175cull, 0x1c600a12168f6b1aull, 0x1c613770474911bcull, 0x1c613770474911bdull, 0x1c634e3944716674ull, 0x1c634e3944716675ull, 0x1c68280111754a8aull,
0x1c68280111754a8bull, 0x1c6c2a8597192551ull, 0x1c6d0adca1008103ull, 0x1c6d0adca1008104ull, 0x1c700a12168f6b1aull, 0x1c703bddf5cbbee1ull, 0x1c734e3944716674ull, 0x1c734e3944716675ull,
0x1c7af413a3d82c4bull, 0x1c7af413a3d82c4cull, 0x1c7c2a8597192551ull, 0x1c7ffb3e3d80ac50ull, 0x1c7ffb3e3d80ac51ull, 0x1c80b1be07fefc8eull, 0x1c80b1be07fefc8full, 0x1c8217c751306d6full,
0x1c840c969c3345e0ull, 0x1c840c969c3345e1ull, 0x1c8721267424c960ull, 0x1c8c2a8597192551ull, 0x1c940c969c3345e0ull, 0x1c940c969c3345e1ull, 0x1c9721267424c960ull, 0x1c9c2a8597192551ull,
0x1c9c42514211613eull, 0x1c9c42514211613full, 0x1ca158dcd71b9708ull, 0x1ca721267424c960ull, 0x1ca9a5d6059ef758ull, 0x1ca9a5d6059ef759ull, 0x1cac2a8597192551ull, 0x1cac42514211613eull,
0x1cac42514211613full, 0x1caf262f7f6c7eedull, 0x1cb110ecb3dfec44ull, 0x1cb110ecb3dfec45ull, 0x1cb158dcd71b9708ull, 0x1cb33787de1f187dull, 0x1cbc2a8597192551ull, 0x1cbda85a8b42d21full,
0x1cbf6e1fa2a829b0ull, 0x1cbf6e1fa2a829b1ull, 0x1cc110ecb3dfec44ull, 0x1cc110ecb3dfec45ull, 0x1cc158dcd71b9708ull, 0x1ccaacb0a2ef7883ull, 0x1ccc2a8597192551ull, 0x1ccce970112dfbb8ull,
0x1ccf6e1fa2a829b0ull, 0x1ccf6e1fa2a829b1ull, 0x1cd158dcd71b9708ull, 0x1cdaacb0a2ef7883ull, 0x1cdc89fad4239084ull, 0x1cdc89fad4239085ull, 0x1cdce970112dfbb8ull, 0x1cde67450557a886ull,
0x1cdf6e1fa2a829b0ull, 0x1cdf6e1fa2a829b1ull, 0x1ce33787de1f187dull, 0x1ce5af140ce27ccaull, 0x1cec40a9db187c4dull, 0x1cec40a9db187c4eull, 0x1cec89fad4239084ull, 0x1cec89fad4239085ull,
0x1cee67450557a886ull, 0x1cf211e60abcbd53ull, 0x1cf2ee36e5140446ull, 0x1cf6cd73c401be64ull, 0x1cf6cd73c401be65ull, 0x1cf8ecccd1fdd10dull, 0x1cf8ecccd1fdd10eull, 0x1cfc89fad4239084ull,
0x1cfc89fad4239085ull, 0x1d00434f09a9dd97ull, 0x1d00434f09a9dd98ull, 0x1d0211e60abcbd53ull, 0x1d02ee36e5140446ull, 0x1d08ecccd1fdd10dull, 0x1d08ecccd1fdd10eull, 0x1d0c89fad4239084ull,
0x1d0c89fad4239085ull, 0x1d1211e60abcbd53ull, 0x1d12ee36e5140446ull, 0x1d1c89fad4239084ull, 0x1d1c89fad4239085ull, 0x1d1d1c9cc639b8f2ull, 0x1d1d1c9cc639b8f3ull, 0x1d20a2c446b448cbull,
0x1d2211e60abcbd53ull, 0x1d22ee36e5140446ull, 0x1d2bd269f21f5640ull, 0x1d2bd269f21f5641ull, 0x1d2c89fad4239084ull, 0x1d2c89fad4239085ull, 0x1d2d1c9cc639b8f2ull, 0x1d2d1c9cc639b8f3ull,
0x1d30a2c446b448cbull, 0x1d3211e60abcbd53ull, 0x1d32ee36e5140446ull, 0x1d3b76a1811d391eull, 0x1d3b76a1811d391full, 0x1d3c89fad4239084ull, 0x1d3c89fad4239085ull, 0x1d3f1ebe6b8e6036ull,
0x1d3f1ebe6b8e6037ull, 0x1d4211e60abcbd53ull, 0x1d426dae7bbeda75ull, 0x1d42ee36e5140446ull, 0x1d4abf109f18fedaull, 0x1d4abf109f18fedbull, 0x1d4b48bd489c2a8dull, 0x1d4b48bd489c2a8eull,
0x1d4b644184f3b2c7ull, 0x1d526dae7bbeda75ull, 0x1d57293c3503db86ull, 0x1d57293c3503db87ull, 0x1d57a9c49e590557ull, 0x1d57a9c49e590558ull, 0x1d5a6330b2495f25ull, 0x1d5abf109f18fedaull,
0x1d5abf109f18fedbull, 0x1d61faf3ee7c360aull, 0x1d61faf3ee7c360bull, 0x1d626dae7bbeda75ull, 0x1d67293c3503db86ull, 0x1d67293c3503db87ull, 0x1d67a9c49e590557ull, 0x1d67a9c49e590558ull,
0x1d6b31cb2c5ba345ull, 0x1d726dae7bbeda75ull, 0x1d77a9c49e590557ull, 0x1d77a9c49e590558ull, 0x1d7966e0f751119bull, 0x1d7b31cb2c5ba345ull, 0x1d7f93d984aa07adull, 0x1d80f5976f236932ull,
0x1d826dae7bbeda75ull, 0x1d89a7252bfba683ull, 0x1d89a7252bfba684ull, 0x1d8f211ef7676342ull, 0x1d8f211ef7676343ull, 0x1d91b1a2f57121d3ull, 0x1d91b1a2f57121d4ull, 0x1d926dae7bbeda75ull,
0x1d9aa5d572ccf719ull, 0x1d9aa5d572ccf71aull, 0x1d9d62d25882d579ull, 0x1da26dae7bbeda75ull, 0x1da6ab145787b4c1ull, 0x1da6ab145787b4c2ull, 0x1da7e8406a20d7f7ull, 0x1dab252d96359f64ull,
0x1dab252d96359f65ull, 0x1dad62d25882d579ull, 0x1db26dae7bbeda75ull, 0x1db927cd0892fe38ull, 0x1db927cd0892fe39ull, 0x1dbb64d9a7e9f38aull, 0x1dbc60913fec0051ull, 0x1dbfe1eb956721fcull,
0x1dc26dae7bbeda75ull, 0x1dc6e94411d466ffull, 0x1dc6e94411d46700ull, 0x1dca66296118a2f4ull, 0x1dce213e6aa99126ull, 0x1dce213e6aa99127ull, 0x1dcfe1eb956721fcull, 0x1dd0100da7d9ea1dull,
0x1dd26dae7bbeda75ull, 0x1dd7e970b00d597dull, 0x1dd946e4e5b95757ull, 0x1dd946e4e5b95758ull, 0x1dde213e6aa99126ull, 0x1dde213e6aa99127ull, 0x1ddfa0c32c4b2befull, 0x1de0100da7d9ea1dull,
0x1de26dae7bbeda75ull, 0x1de3ed333d60753dull, 0x1de3ed333d60753eull, 0x1de90738d4050332ull, 0x1de946e4e5b95757ull, 0x1de946e4e5b95758ull, 0x1dee213e6aa99126ull, 0x1dee213e6aa99127ull,
0x1df22c8612a2e468ull, 0x1df26dae7bbeda75ull, 0x1df3ed333d60753dull, 0x1df3ed333d60753eull, 0x1df50afb61581ef2ull, 0x1df50afb61581ef3ull, 0x1df90738d4050332ull, 0x1dfef14ae5c15c0eull,
0x1e022c8612a2e468ull, 0x1e026dae7bbeda75ull, 0x1e050afb61581ef2ull, 0x1e050afb61581ef3ull, 0x1e08af7cb0c01b41ull, 0x1e08af7cb0c01b42ull, 0x1e090738d4050332ull, 0x1e0d037646b1e771ull,
0x1e0d037646b1e772ull, 0x1e10f329f74fc43eull, 0x1e122c8612a2e468ull, 0x1e12c56a9f03c265ull, 0x1e12c56a9f03c266ull, 0x1e18af7cb0c01b41ull, 0x1e18af7cb0c01b42ull, 0x1e1b4cc996595fbfull,
0x1e1d037646b1e771ull, 0x1e1d037646b1e772ull, 0x1e222c8612a2e468ull, 0x1e22c56a9f03c265ull, 0x1e22c56a9f03c266ull, 0x1e25ade0681e0613ull, 0x1e26b7a7974b9d82ull, 0x1e2a2a01352f3178ull,
0x1e2a2a01352f3179ull, 0x1e2f4907090643feull, 0x1e2f4907090643ffull, 0x1e3035e7b5183922ull, 0x1e3035e7b5183923ull, 0x1e3109bdb178b621ull, 0x1e3109bdb178b622ull, 0x1e3632c3ffb4d1caull,
0x1e3632c3ffb4d1cbull, 0x1e36b7a7974b9d82ull, 0x1e3a2a01352f3178ull, 0x1e3a2a01352f3179ull, 0x1e3f4907090643feull, 0x1e3f4907090643ffull, 0x1e4035e7b5183922ull, 0x1e4035e7b5183923ull,
0x1e4109bdb178b621ull, 0x1e4109bdb178b622ull, 0x1e4158b016426769ull, 0x1e452ff47523b54dull, 0x1e452ff47523b54eull, 0x1e4be0ade587b92bull, 0x1e5035e7b5183922ull, 0x1e5035e7b5183923ull,
0x1e5084da19e1ea6aull, 0x1e539e40d896c3f6ull, 0x1e58e23fc0396cd7ull, 0x1e5be0ade587b92bull, 0x1e5c65917d1e84e2ull, 0x1e5c65917d1e84e3ull, 0x1e6035e7b5183922ull, 0x1e6035e7b5183923ull,
0x1e6084da19e1ea6aull, 0x1e639e40d896c3f6ull, 0x1e67bf775f0f3e90ull, 0x1e67bf775f0f3e91ull, 0x1e6c65917d1e84e2ull, 0x1e6c65917d1e84e3ull, 0x1e6ca7079534ef8eull, 0x1e7035e7b5183922ull,
0x1e7035e7b5183923ull, 0x1e7084da19e1ea6aull, 0x1e77bf775f0f3e90ull, 0x1e77bf775f0f3e91ull, 0x1e7c65917d1e84e2ull, 0x1e7c65917d1e84e3ull, 0x1e7ca7079534ef8eull, 0x1e7e896b7fb2b0e9ull,
0x1e7e896b7fb2b0eaull, 0x1e8035e7b5183922ull, 0x1e8035e7b5183923ull, 0x1e8084da19e1ea6aull, 0x1e875fa99a657506ull, 0x1e87bf775f0f3e90ull, 0x1e87bf775f0f3e91ull, 0x1e8ca7079534ef8eull,
0x1e9274ba5112f261ull, 0x1e9274ba5112f262ull, 0x1e94a610a05a6504ull, 0x1e94a610a05a6505ull, 0x1e957d45afe7b3aaull, 0x1e957d45afe7b3abull, 0x1e98445af6a60a48ull, 0x1e9ca7079534ef8eull,
0x1e9ee939445c7a74ull, 0x1ea2334438fc87b6ull, 0x1ea57d45afe7b3aaull, 0x1ea57d45afe7b3abull, 0x1ea99e7c36602e45ull, 0x1eaab7275e03e796ull, 0x1eaab7275e03e797ull, 0x1eadc8206cc8b501ull,
0x1eb2334438fc87b6ull, 0x1eb57d45afe7b3aaull, 0x1eb57d45afe7b3abull, 0x1eb60dd21bb19664ull, 0x1ebb22c1e5ca8ee9ull, 0x1ebb22c1e5ca8eeaull, 0x1ebd379400fed247ull, 0x1ebd379400fed248ull,
0x1ebdbfb2bcd8a8dfull, 0x1ebdbfb2bcd8a8e0ull, 0x1ec0aefe89922711ull, 0x1ec0aefe89922712ull, 0x1ec57d45afe7b3aaull, 0x1ec57d45afe7b3abull, 0x1ec7ae9bff2f264dull, 0x1ec7ae9bff2f264eull,
0x1ece5571b44f8cdaull, 0x1ecf43f86c430984ull, 0x1ecf79c5b0265d2dull, 0x1ecf79c5b0265d2eull, 0x1ed12641e58be566ull, 0x1ed12641e58be567ull, 0x1ed2aa8794f6460bull, 0x1ed57d45afe7b3aaull,
0x1ed57d45afe7b3abull, 0x1ed6c015473ba9a3ull, 0x1ed6c015473ba9a4ull, 0x1eda7b85b007086cull, 0x1edf43f86c430984ull, 0x1ee2aa8794f6460bull, 0x1ee57d45afe7b3aaull, 0x1ee57d45afe7b3abull,
0x1ee73758a33567f8ull, 0x1ee73758a33567f9ull, 0x1eea7b85b007086cull, 0x1eeb9146a29dfbfdull, 0x1eef43f86c430984ull, 0x1ef69306a27ea73bull, 0x1ef69306a27ea73cull, 0x1ef772fa51324723ull,
0x1ef7ae9bff2f264dull, 0x1ef7ae9bff2f264eull, 0x1efa7b85b007086cull, 0x1efeccb510494b2full, 0x1eff0856be462a59ull, 0x1eff0856be462a5aull, 0x1f038a7b43a9e5f2ull, 0x1f038a7b43a9e5f3ull,
0x1f03dca444054651ull, 0x1f07ae9bff2f264dull, 0x1f07ae9bff2f264eull, 0x1f0d31e80e806956ull, 0x1f0d31e80e806957ull, 0x1f0eccb510494b2full, 0x1f0f0856be462a59ull, 0x1f0f0856be462a5aull,
0x1f108d338e046543ull, 0x1f108d338e046544ull, 0x1f138a7b43a9e5f2ull, 0x1f138a7b43a9e5f3ull, 0x1f1d31e80e806956ull, 0x1f1d31e80e806957ull, 0x1f1eccb510494b2full, 0x1f208d338e046543ull,
0x1f208d338e046544ull, 0x1f21786ae5e745c5ull, 0x1f238a7b43a9e5f2ull, 0x1f238a7b43a9e5f3ull, 0x1f2d31e80e806956ull, 0x1f2d31e80e806957ull, 0x1f2d7e6f3a442968ull, 0x1f308d338e046543ull,
0x1f308d338e046544ull, 0x1f31786ae5e745c5ull, 0x1f36df8dce42674dull, 0x1f3bd2bcbab466a8ull, 0x1f3bd2bcbab466a9ull, 0x1f3c46b0b69d88d5ull, 0x1f41786ae5e745c5ull, 0x1f46df8dce42674dull,
0x1f4bd2bcbab466a8ull, 0x1f4bd2bcbab466a9ull, 0x1f4bfcfa752598eaull, 0x1f4c46b0b69d88d5ull, 0x1f51786ae5e745c5ull, 0x1f56df8dce42674dull, 0x1f596e4421b4001bull, 0x1f596e4421b4001cull,
0x1f59931f426ff811ull, 0x1f5b03ae89c7a7a8ull, 0x1f61786ae5e745c5ull, 0x1f63168747c0c3c6ull, 0x1f66df8dce42674dull, 0x1f68395688592fafull, 0x1f689683f7016aa6ull, 0x1f689683f7016aa7ull,
0x1f6efa422acb1999ull, 0x1f71786ae5e745c5ull, 0x1f73168747c0c3c6ull, 0x1f76df8dce42674dull, 0x1f778c722b4dcb7eull, 0x1f78395688592fafull, 0x1f7d5c25c8f19b98ull, 0x1f8373b4b668febdull,
0x1f8373b4b668febeull, 0x1f84d8e0b7203abaull, 0x1f86df8dce42674dull, 0x1f8735fffcc81965ull, 0x1f8735fffcc81966ull, 0x1f88395688592fafull, 0x1f9373b4b668febdull, 0x1f9373b4b668febeull,
0x1f96891b9fbcb534ull, 0x1f96891b9fbcb535ull, 0x1f97dc2919b0f4b7ull, 0x1f97dc2919b0f4b8ull, 0x1f98395688592fafull, 0x1fa152e371f4a686ull, 0x1fa373b4b668febdull, 0x1fa373b4b668febeull,
0x1fa5a7eee80cf9baull, 0x1fa5a7eee80cf9bbull, 0x1fa6891b9fbcb534ull, 0x1fa6891b9fbcb535ull, 0x1fa8395688592fafull, 0x1fabe4db41776322ull, 0x1fb152e371f4a686ull, 0x1fb373b4b668febdull,
0x1fb373b4b668febeull, 0x1fb48dd1cf3afc3cull, 0x1fb8395688592fafull, 0x1fba0f18e4e84968ull, 0x1fba0f18e4e84969ull, 0x1fbf328d58b70877ull, 0x1fbf328d58b70878ull, 0x1fc152e371f4a686ull,
0x1fc48dd1cf3afc3cull, 0x1fc8395688592fafull, 0x1fcdba9d9e067cdbull, 0x1fcdba9d9e067cdcull, 0x1fcf328d58b70877ull, 0x1fcf328d58b70878ull, 0x1fd48dd1cf3afc3cull, 0x1fd5a79c4e71d027ull,
0x1fd5a79c4e71d028ull, 0x1fd6c20c00def739ull, 0x1fdca08085347f5dull, 0x1fddba9d9e067cdbull, 0x1fddba9d9e067cdcull, 0x1fdf328d58b70877ull, 0x1fdf328d58b70878ull, 0x1fe1fc1795539cb4ull,
0x1fe1fc1795539cb5ull, 0x1fe5a79c4e71d027ull, 0x1fe5a79c4e71d028ull, 0x1fe9b1464309bb4bull, 0x1fea6d14d3946c4full, 0x1fea6d14d3946c50ull, 0x1feca08085347f5dull, 0x1fedba9d9e067cdbull,
0x1fedba9d9e067cdcull, 0x1ff5a79c4e71d027ull, 0x1ff5a79c4e71d028ull, 0x1ff80a5891031e3bull, 0x1ff80a5891031e3cull, 0x1ff9b1464309bb4bull, 0x1ffa6d14d3946c4full, 0x1ffa6d14d3946c50ull,
0x1ffb28e3641f1d54ull, 0x1ffcfecf0d7bcbd7ull, 0x2003d2d1beb43327ull, 0x2009b1464309bb4bull, 0x200a6d14d3946c4full, 0x200a6d14d3946c50ull, 0x200b28e3641f1d54ull, 0x200cfecf0d7bcbd7ull,
0x2013a2dbfa8ca4faull, 0x2013a2dbfa8ca4fbull, 0x2014763e2d29291dull, 0x2014763e2d29291eull, 0x20177dda9169a83dull, 0x20177dda9169a83eull, 0x201a6d14d3946c4full, 0x201a6d14d3946c50ull,
0x201b28e3641f1d54ull, 0x20245eaa8b1755ffull, 0x2024763e2d29291dull, 0x2024763e2d29291eull, 0x202707f8671088a5ull, 0x202771a9805ecab6ull, 0x202771a9805ecab7ull, 0x202a6d14d3946c4full,
0x202a6d14d3946c50ull, 0x202e48136a716f92ull, 0x202e48136a716f93ull, 0x2030f98e1e937254ull, 0x2030f98e1e937255ull, 0x2034ea83577a78d7ull, 0x203707f8671088a5ull, 0x20377dda9169a83dull,
0x20377dda9169a83eull, 0x203a6d14d3946c4full, 0x203a6d14d3946c50ull, 0x203e48136a716f92ull, 0x203e48136a716f93ull, 0x2040f98e1e937254ull, 0x2040f98e1e937255ull, 0x2042f888838e5851ull,
0x20477dda9169a83dull, 0x20477dda9169a83eull, 0x204a6d14d3946c4full, 0x204a6d14d3946c50ull, 0x204e6b099d8a3848ull, 0x204e6b099d8a3849ull, 0x2050f98e1e937254ull, 0x2050f98e1e937255ull,
0x2052f888838e5851ull, 0x20543bb457fe8d49ull, 0x205a6d14d3946c4full, 0x205a6d14d3946c50ull, 0x205e7c84b7169ca3ull, 0x205e7c84b7169ca4ull, 0x2060f0d091cd4027ull, 0x2060f98e1e937254ull,
0x2060f98e1e937255ull, 0x2061f4ac8aadcc3cull, 0x206b17684a92b8f9ull, 0x206b70f0cc74f864ull, 0x206b70f0cc74f865ull, 0x206e7c84b7169ca3ull, 0x206e7c84b7169ca4ull, 0x2070f0d091cd4027ull,
0x207b17684a92b8f9ull, 0x207e7c84b7169ca3ull, 0x207e7c84b7169ca4ull, 0x207e854243dcced1ull, 0x207eb0f603bbc9b4ull, 0x207eb0f603bbc9b5ull, 0x2080f0d091cd4027ull, 0x208b17684a92b8f9ull,
0x208bf2dec8e53e6full, 0x208cce554737c3e5ull, 0x208eb0f603bbc9b4ull, 0x208eb0f603bbc9b5ull, 0x20961e5514829318ull, 0x20961e5514829319ull, 0x209671d7ad593f4bull, 0x209b17684a92b8f9ull,
0x209bf2dec8e53e6full, 0x209cce554737c3e5ull, 0x20a3e44cd8409782ull, 0x20ab17684a92b8f9ull, 0x20abf1eb09ed9f6aull, 0x20abf1eb09ed9f6bull, 0x20abf2dec8e53e6full, 0x20ac609a080e812aull,
0x20af60b8c22f5447ull, 0x20b3e44cd8409782ull, 0x20bb17684a92b8f9ull, 0x20bbf2dec8e53e6full, 0x20bc29bc6879dfccull, 0x20bc29bc6879dfcdull, 0x20bd3c10866106a0ull, 0x20bf60b8c22f5447ull,
0x20c4a96f9727d004ull, 0x20c51195e6763f82ull, 0x20cb17684a92b8f9ull, 0x20cbf2dec8e53e6full, 0x20cc29bc6879dfccull, 0x20cc29bc6879dfcdull, 0x20cf60b8c22f5447ull, 0x20d13aa1dee61b27ull,
0x20d13aa1dee61b28ull, 0x20d4dab846e19e24ull, 0x20d4dab846e19e25ull, 0x20da05142cab9225ull, 0x20da05142cab9226ull, 0x20dc29bc6879dfccull, 0x20dc29bc6879dfcdull, 0x20de9b9603481bc5ull,
0x20df60b8c22f5447ull, 0x20e4dab846e19e24ull, 0x20e4dab846e19e25ull, 0x20e50c00f69b6c45ull, 0x20e8823a57adbef8ull, 0x20e8823a57adbef9ull, 0x20ec29bc6879dfccull, 0x20ec29bc6879dfcdull,
0x20ee9b9603481bc5ull, 0x20ef60b8c22f5447ull, 0x20f2458a53fca424ull, 0x20f4dab846e19e24ull, 0x20f4dab846e19e25ull, 0x20f50c00f69b6c45ull, 0x20f8823a57adbef8ull, 0x20f8823a57adbef9ull,
0x20f9d3cb7cf1c405ull, 0x20fa55fb6013cf62ull, 0x20fa55fb6013cf63ull, 0x2104dab846e19e24ull, 0x2104dab846e19e25ull, 0x21050c00f69b6c45ull, 0x21076fe639c69825ull, 0x2108823a57adbef8ull,
0x2108823a57adbef9ull, 0x21096c1adbe0c72dull, 0x21096c1adbe0c72eull, 0x210dfd7d70dff036ull, 0x210dfd7d70dff037ull, 0x2110bb44d62e3320ull, 0x2114dab846e19e24ull, 0x2114dab846e19e25ull,
0x21163df398310235ull, 0x21176fe639c69825ull, 0x21196c1adbe0c72dull, 0x21196c1adbe0c72eull, 0x211f1af30c0003ccull, 0x211f1af30c0003cdull, 0x2120bb44d62e3320ull, 0x2126d6ece8fbcd2dull,
0x21272369916132a9ull, 0x21276fe639c69825ull, 0x21296c1adbe0c72dull, 0x21296c1adbe0c72eull, 0x212f1af30c0003ccull, 0x212f1af30c0003cdull, 0x2130224b85636828ull, 0x2136d6ece8fbcd2dull,
0x21372369916132a9ull, 0x21396c1adbe0c72dull, 0x21396c1adbe0c72eull, 0x213f1af30c0003ccull, 0x213f1af30c0003cdull, 0x2140224b85636828ull, 0x2141ed3777c3c910ull, 0x2146fd2b3d2e7febull,
0x21472369916132a9ull, 0x214f1af30c0003ccull, 0x214f1af30c0003cdull, 0x2150224b85636828ull, 0x21506ec82dc8cda4ull, 0x2157104a6747d94aull, 0x21572369916132a9ull, 0x215ef4b4b7cd510eull,
0x215ef4b4b7cd510full, 0x215f1af30c0003ccull, 0x215f1af30c0003cdull, 0x21600f2c5b4a0ec9ull, 0x21606ec82dc8cda4ull, 0x216719d9fc5485f9ull, 0x216719d9fc5485faull, 0x21672369916132a9ull,
0x216f1af30c0003ccull, 0x216f1af30c0003cdull, 0x216fed49db16dae1ull, 0x216fed49db16dae2ull, 0x2170059cc63d6219ull, 0x2170059cc63d621aull, 0x21700f2c5b4a0ec9ull, 0x2172ac6f1cc146c6ull,
0x217cdd4c1d078aaaull, 0x217cdd4c1d078aabull, 0x217f1af30c0003ccull, 0x217f1af30c0003cdull, 0x217fed49db16dae1ull, 0x217fed49db16dae2ull, 0x21800f2c5b4a0ec9ull, 0x2180ce6400478c7full,
0x218cddec96267c4cull, 0x218ce77c2b3328fbull, 0x218ce77c2b3328fcull, 0x218ebb57398144f1ull, 0x218ebb57398144f2ull, 0x218eeb2522c0a45full, 0x2190ce6400478c7full, 0x219cb7ae41f3c98eull,
0x219cddec96267c4cull, 0x219ce77c2b3328fbull, 0x219ce77c2b3328fcull, 0x219faa5cc7be2215ull, 0x21a2ac6f1cc146c6ull, 0x21abf8769cf64bd8ull, 0x21acb7ae41f3c98eull, 0x21ace77c2b3328fbull,
0x21ace77c2b3328fcull, 0x21adcc51ab4467ceull, 0x21b589c2b176d72aull, 0x21b589c2b176d72bull, 0x21b83c606402d74aull, 0x21bbf8769cf64bd8ull, 0x21bce77c2b3328fbull, 0x21bce77c2b3328fcull,
0x21c20ab3ddd80dafull, 0x21c20ab3ddd80db0ull, 0x21c4fa58f5b8b8e2ull, 0x21c83c606402d74aull, 0x21cce77c2b3328fbull, 0x21cce77c2b3328fcull, 0x21d17b4a2219ef67ull, 0x21d22d484b022177ull,
0x21d22d484b022178ull, 0x21d7791804859b55ull, 0x21d7791804859b56ull, 0x21dce77c2b3328fbull, 0x21dce77c2b3328fcull, 0x21e0c94bf931bd56ull, 0x21e0c94bf931bd57ull, 0x21e17b4a2219ef67ull,
0x21ece77c2b3328fbull, 0x21ece77c2b3328fcull, 0x21ee4b787d038d1cull, 0x21ee4b787d038d1dull, 0x21eea70395028db9ull, 0x21f0c94bf931bd56ull, 0x21f0c94bf931bd57ull, 0x21f17b4a2219ef67ull,
0x21f78a623b1aa539ull, 0x21f78a623b1aa53aull, 0x21fce77c2b3328fbull, 0x21fce77c2b3328fcull, 0x21fea70395028db9ull, 0x2202d2909e201057ull, 0x2202d2909e201058ull, 0x220429d71a263148ull,
0x22061d7efada37ecull, 0x22078a623b1aa539ull, 0x22078a623b1aa53aull, 0x220ce77c2b3328fbull, 0x220ce77c2b3328fcull, 0x2210c94bf931bd56ull, 0x2210c94bf931bd57ull, 0x2210e2b7a4c643b7ull,
0x2210e2b7a4c643b8ull, 0x221429d71a263148ull, 0x22178a623b1aa539ull, 0x22178a623b1aa53aull, 0x2217dd0664a99ca9ull, 0x2217dd0664a99caaull, 0x221ce77c2b3328fbull, 0x221ce77c2b3328fcull,
0x2220c94bf931bd56ull, 0x2220c94bf931bd57ull, 0x2220d601cefc0087ull, 0x222429d71a263148ull, 0x222a624147ee62d2ull, 0x222a624147ee62d3ull, 0x222c94d801a4318bull, 0x222c94d801a4318cull,
0x222ce77c2b3328fbull, 0x222ce77c2b3328fcull, 0x2230d601cefc0087ull, 0x2231a49c36e16b1full, 0x2239344ce0afbd9aull, 0x223ba4deb990c5e7ull, 0x223ce77c2b3328fbull, 0x223ce77c2b3328fcull,
0x223f1a12e4e8f7b4ull, 0x223f1a12e4e8f7b5ull, 0x224061fec53f080aull, 0x224061fec53f080bull, 0x2240bc9623677a26ull, 0x2245052757d5df10ull, 0x2245052757d5df11ull, 0x2249344ce0afbd9aull,
0x22495a6e620e872bull, 0x22495a6e620e872cull, 0x224f1a12e4e8f7b4ull, 0x224f1a12e4e8f7b5ull, 0x225061fec53f080aull, 0x225061fec53f080bull, 0x2250bc9623677a26ull, 0x2252e739a883ce33ull,
0x2252e739a883ce34ull, 0x225b523a9001ce77ull, 0x225d8993eae865b5ull, 0x225f4db97ee2525aull, 0x225f4db97ee2525bull, 0x226061fec53f080aull, 0x226061fec53f080bull, 0x2262e739a883ce33ull,
0x2262e739a883ce34ull, 0x226a4343b858c608ull, 0x226a4343b858c609ull, 0x226b523a9001ce77ull, 0x226f678ccbdeffadull, 0x226f678ccbdeffaeull, 0x226f816018dbad00ull, 0x226f816018dbad01ull,
0x227197b290631475ull, 0x227197b290631476ull, 0x2272da500205778aull, 0x2272e739a883ce33ull, 0x2272e739a883ce34ull, 0x227b523a9001ce77ull, 0x227ce251e89a3984ull, 0x227ce251e89a3985ull,
0x227f816018dbad00ull, 0x227f816018dbad01ull, 0x2280bc9623677a26ull, 0x228197b290631475ull, 0x228197b290631476ull, 0x2286953eb06e4a1eull, 0x2287e4c5c88f03dcull, 0x228ea540985bb154ull,
0x228f816018dbad00ull, 0x228f816018dbad01ull, 0x2290bc9623677a26ull, 0x229197b290631475ull, 0x229197b290631476ull, 0x2296953eb06e4a1eull, 0x229be010e6bb7446ull, 0x229be010e6bb7447ull,
0x229d8a1574aa9663ull, 0x229d8a1574aa9664ull, 0x229f816018dbad00ull, 0x229f816018dbad01ull, 0x22a0079b37caa968ull, 0x22a0efef0452b796ull, 0x22a0efef0452b797ull, 0x22a197b290631475ull,
0x22a197b290631476ull, 0x22a436c0c0a487f1ull, 0x22a436c0c0a487f2ull, 0x22a790e40286d56cull, 0x22a790e40286d56dull, 0x22af816018dbad00ull, 0x22af816018dbad01ull, 0x22b0efef0452b796ull,
0x22b0efef0452b797ull, 0x22b381c5d507b733ull, 0x22b381c5d507b734ull, 0x22b436c0c0a487f1ull, 0x22b436c0c0a487f2ull, 0x22bc3a8e5c89dca5ull, 0x22bc3a8e5c89dca6ull, 0x22bdddf73ab2c4d3ull,
0x22c3dc434ad61f92ull, 0x22c3dc434ad61f93ull, 0x22c436c0c0a487f1ull, 0x22c436c0c0a487f2ull, 0x22c4944b4974f4f1ull, 0x22c838a78e97324bull, 0x22c838a78e97324cull, 0x22ca399af5908778ull,
0x22ca399af5908779ull, 0x22cc3a8e5c89dca5ull, 0x22cc3a8e5c89dca6ull, 0x22d4098205bd53c2ull, 0x22d436c0c0a487f1ull, 0x22d436c0c0a487f2ull, 0x22d4944b4974f4f1ull, 0x22d838a78e97324bull,
0x22d838a78e97324cull, 0x22da399af5908778ull, 0x22da399af5908779ull, 0x22e3af048feeeb63ull, 0x22e436c0c0a487f1ull, 0x22e436c0c0a487f2ull, 0x22e4913e3672f050ull, 0x22e4913e3672f051ull,
0x22e939214213dce2ull, 0x22ea399af5908778ull, 0x22ea399af5908779ull, 0x22ee3b81c38331d2ull, 0x22ee3b81c38331d3ull, 0x22f3af048feeeb63ull, 0x22f939214213dce2ull, 0x22fa399af5908778ull,
0x22fa399af5908779ull, 0x22fe3b81c38331d2ull, 0x22fe3b81c38331d3ull, 0x22fe68c07e6a6602ull, 0x2302ead8f18ee5a9ull, 0x2302ead8f18ee5aaull, 0x23090be2872ca8b2ull, 0x23090be2872ca8b3ull,
0x230939214213dce2ull, 0x230a399af5908778ull, 0x230a399af5908779ull, 0x230e3b81c38331d2ull, 0x230e3b81c38331d3ull, 0x230e68c07e6a6602ull, 0x2312ead8f18ee5a9ull, 0x2312ead8f18ee5aaull,
0x23169239f38fb691ull, 0x2316ce905ecfcc81ull, 0x2316ce905ecfcc82ull, 0x23190be2872ca8b2ull, 0x23190be2872ca8b3ull, 0x231ce0824414adc9ull, 0x231ce0824414adcaull, 0x231e3b81c38331d2ull,
0x231e3b81c38331d3ull, 0x2322ead8f18ee5a9ull, 0x2322ead8f18ee5aaull, 0x2323af048feeeb63ull, 0x2327ed3972fe3a9aull, 0x232c2b6e560d89d1ull, 0x232ee175ab0e02f6ull, 0x232ee175ab0e02f7ull,
0x232f87699298d41aull, 0x232f87699298d41bull, 0x2332ead8f18ee5a9ull, 0x2332ead8f18ee5aaull, 0x2337ed3972fe3a9aull, 0x233c2b6e560d89d1ull, 0x233f346f9ed36b88ull, 0x233f346f9ed36b89ull,
0x233f87699298d41aull, 0x233f87699298d41bull, 0x2341f1eb163eabf3ull, 0x2341f1eb163eabf4ull, 0x2347ed3972fe3a9aull, 0x23490fa448312899ull, 0x234a0c53e485e235ull, 0x234a0c53e485e236ull,
0x234f5dec98b61fd1ull, 0x234f5dec98b61fd2ull, 0x234f87699298d41aull, 0x234f87699298d41bull, 0x2351f1eb163eabf3ull, 0x2351f1eb163eabf4ull, 0x2352c15bf7ac3160ull, 0x2352c15bf7ac3161ull,
0x2354110587c6538full, 0x23572937834f6a42ull, 0x235a0c53e485e235ull, 0x235a0c53e485e236ull, 0x235f87699298d41aull, 0x235f87699298d41bull, 0x2361f1eb163eabf3ull, 0x2361f1eb163eabf4ull,
0x2362c15bf7ac3160ull, 0x2362c15bf7ac3161ull, 0x23692462c52282bdull, 0x23692462c52282beull, 0x236a0c53e485e235ull, 0x236a0c53e485e236ull, 0x236bfa6dda21d5bbull, 0x236de887cfbdc940ull,
0x236de887cfbdc941ull, 0x2371f1eb163eabf3ull, 0x2371f1eb163eabf4ull, 0x2372c15bf7ac3160ull, 0x2372c15bf7ac3161ull, 0x2375f2df5e675a0full, 0x237bfa6dda21d5bbull, 0x237de887cfbdc940ull,
0x237de887cfbdc941ull, 0x237fef22034f96d1ull, 0x23834d0398178337ull, 0x2385f2df5e675a0full, 0x238bee2dbb26e8b5ull, 0x238bee2dbb26e8b6ull, 0x238bfa6dda21d5bbull, 0x238de887cfbdc940ull,
0x238de887cfbdc941ull, 0x2395f2df5e675a0full, 0x2397a3b8b91cac79ull, 0x239bee2dbb26e8b5ull, 0x239bee2dbb26e8b6ull, 0x239bfa6dda21d5bbull, 0x239de887cfbdc940ull, 0x239de887cfbdc941ull,
0x23a2ef18208a1c39ull, 0x23a373ceb52d4adeull, 0x23a373ceb52d4adfull, 0x23a5f2df5e675a0full, 0x23a9cf13499f411aull, 0x23abfa6dda21d5bbull, 0x23b470fbbf78bb24ull, 0x23b5f2df5e675a0full,
0x23ba300ee16428faull, 0x23ba300ee16428fbull, 0x23bae4c091e08b6aull, 0x23bae4c091e08b6bull, 0x23bbfa6dda21d5bbull, 0x23c028917d937f7eull, 0x23c028917d937f7full, 0x23c470fbbf78bb24ull,
0x23c531ed8ef00a99ull, 0x23c531ed8ef00a9aull, 0x23c5f2df5e675a0full, 0x23cae4c091e08b6aull, 0x23cae4c091e08b6bull, 0x23cbfa6dda21d5bbull, 0x23d015ae9f11dbd0ull, 0x23d015ae9f11dbd1ull,
0x23d470fbbf78bb24ull, 0x23d586a907ba0574ull, 0x23d586a907ba0575ull, 0x23d5f2df5e675a0full, 0x23d835b4cccd486full, 0x23d835b4cccd4870ull, 0x23dae4c091e08b6aull, 0x23dae4c091e08b6bull,
0x23e470fbbf78bb24ull, 0x23e5f2df5e675a0full, 0x23e835b4cccd486full, 0x23e835b4cccd4870ull, 0x23e880fed6567173ull, 0x23e880fed6567174ull, 0x23eae4c091e08b6aull, 0x23eae4c091e08b6bull,
0x23ed51f3bcab7738ull, 0x23ed51f3bcab7739ull, 0x23f028917d937f7eull, 0x23f028917d937f7full, 0x23f1e2dc4789a3bfull, 0x23f1e2dc4789a3c0ull, 0x23f835b4cccd486full, 0x23f835b4cccd4870ull,
0x23f98d3aaf56e9edull, 0x23fd93cc56f3ce65ull, 0x23fd93cc56f3ce66ull, 0x23ffe013349a8e9dull, 0x2406de2eea43a6f2ull, 0x240835b4cccd486full, 0x240835b4cccd4870ull, 0x24098d3aaf56e9edull,
0x240a28877a09a4e0ull, 0x240a28877a09a4e1ull, 0x240cb6a6f1f8bc45ull, 0x240d93cc56f3ce65ull, 0x240d93cc56f3ce66ull, 0x24127e29123c5eb3ull, 0x2416de2eea43a6f2ull, 0x241a28877a09a4e0ull,
0x241a28877a09a4e1ull, 0x241cb6a6f1f8bc45ull, 0x241d93cc56f3ce65ull, 0x241d93cc56f3ce66ull, 0x241f44c669e7d3a9ull, 0x241f44c669e7d3aaull, 0x242126a32fb2bd35ull, 0x242126a32fb2bd36ull,
0x24227e29123c5eb3ull, 0x242b97a8f2b552f7ull, 0x242b97a8f2b552f8ull, 0x242d93cc56f3ce65ull, 0x242d93cc56f3ce66ull, 0x242f44c669e7d3a9ull, 0x242f44c669e7d3aaull, 0x243126a32fb2bd35ull,
0x243126a32fb2bd36ull, 0x243441ed79830181ull, 0x243441ed79830182ull, 0x243c95baa4d490aeull, 0x243c95baa4d490afull, 0x243d14c37de42f8aull, 0x243d93cc56f3ce65ull, 0x243d93cc56f3ce66ull,
0x243f44c669e7d3a9ull, 0x243f44c669e7d3aaull, 0x244441ed79830181ull, 0x244441ed79830182ull, 0x2449c359f1b56a95ull, 0x2449c359f1b56a96ull, 0x244c95baa4d490aeull, 0x244c95baa4d490afull,
0x244d14c37de42f8aull, 0x245441ed79830181ull, 0x245441ed79830182ull, 0x245702a3b59c360bull, 0x245702a3b59c360cull, 0x245b871e58fc0d64ull, 0x245c95baa4d490aeull, 0x245c95baa4d490afull,
0x245d14c37de42f8aull, 0x246441ed79830181ull, 0x246441ed79830182ull, 0x2465cf929e6b23a7ull, 0x2465cf929e6b23a8ull, 0x246a999740961540ull, 0x246a999740961541ull, 0x246b871e58fc0d64ull,
0x246c95baa4d490aeull, 0x246c95baa4d490afull, 0x246d14c37de42f8aull, 0x24735466611d095eull, 0x247441ed79830181ull, 0x247441ed79830182ull, 0x2475cf929e6b23a7ull, 0x2475cf929e6b23a8ull,
0x247932a6a19fda2bull, 0x247b23b50fc204daull, 0x247b23b50fc204dbull, 0x2483de843048f8f8ull, 0x248441ed79830181ull, 0x248441ed79830182ull, 0x2485cf929e6b23a7ull, 0x2485cf929e6b23a8ull,
0x2487b2d144a2832eull, 0x248b23b50fc204daull, 0x248b23b50fc204dbull, 0x248f79c5cef9a856ull, 0x248f79c5cef9a857ull, 0x2490c31037964d97ull, 0x2490c31037964d98ull, 0x2493de843048f8f8ull,
0x2495cf929e6b23a7ull, 0x2495cf929e6b23a8ull, 0x249aa4ac36b265ffull, 0x249b23b50fc204daull, 0x249b23b50fc204dbull, 0x249f8fefbb3249d3ull, 0x249f8fefbb3249d4ull, 0x24a0fa790623e150ull,
0x24a35f7b57395a1cull, 0x24a35f7b57395a1dull, 0x24a3de843048f8f8ull, 0x24a5cf929e6b23a7ull, 0x24a5cf929e6b23a8ull, 0x24ab23b50fc204daull, 0x24ab23b50fc204dbull, 0x24abdcb7da4b4ac4ull,
0x24abdcb7da4b4ac5ull, 0x24b0fa790623e150ull, 0x24b162b3aa3fd9d9ull, 0x24b5cf929e6b23a7ull, 0x24b5cf929e6b23a8ull, 0x24b8d6253c5b3736ull, 0x24bbdcb7da4b4ac4ull, 0x24bbdcb7da4b4ac5ull,
0x24bd9f8595cb23f9ull, 0x24bd9f8595cb23faull, 0x24c0fa790623e150ull, 0x24c3b0437da6a77dull, 0x24c3b0437da6a77eull, 0x24c5c47da84ed2e9ull, 0x24c8d6253c5b3736ull, 0x24cbdcb7da4b4ac4ull,
0x24cbdcb7da4b4ac5ull, 0x24cf8fefbb3249d3ull, 0x24cf8fefbb3249d4ull, 0x24d0fa790623e150ull, 0x24d2a09bed446968ull, 0x24d2a09bed446969ull, 0x24d5391747acd9a4ull, 0x24d5c47da84ed2e9ull,
0x24d9e5ccccbd754bull, 0x24ddfc06fb0fc6eeull, 0x24ddfc06fb0fc6efull, 0x24e0fa790623e150ull, 0x24e3286fb5758873ull, 0x24e5391747acd9a4ull, 0x24e57eca77fdd646ull, 0x24e57eca77fdd647ull,
0x24e9e5ccccbd754bull, 0x24ef0bae8b720503ull, 0x24ef0bae8b720504ull, 0x24f072a53df2c245ull, 0x24f072a53df2c246ull, 0x24f3286fb5758873ull, 0x24f5391747acd9a4ull, 0x24f6871e41197edfull,
0x24facd1049e90cafull, 0x24facd1049e90cb0ull, 0x24ff938253a3240eull, 0x25005194f202b111ull, 0x25005194f202b112ull, 0x250291f45eb73e6full, 0x250291f45eb73e70ull, 0x2505c47da84ed2e9ull,
0x250a875d1998100dull, 0x250d743332dea7e4ull, 0x250f938253a3240eull, 0x2511613c8264ef26ull, 0x2511613c8264ef27ull, 0x2517aea1beba5b0aull, 0x2517aea1beba5b0bull, 0x251825ed60f3717bull,
0x2518367586eb7a15ull, 0x251a875d1998100dull, 0x251d743332dea7e4ull, 0x2524001b585e860eull, 0x252617266626fdebull, 0x252825ed60f3717bull, 0x2528367586eb7a15ull, 0x2528be494f1c991full,
0x2528be494f1c9920ull, 0x252956a53d45c0c4ull, 0x2532689fffcb28eeull, 0x2532689fffcb28efull, 0x253825ed60f3717bull, 0x2538be494f1c991full, 0x2538be494f1c9920ull, 0x253c6ccfb5786e1cull,
0x253e1984ae8efde8ull, 0x2541e4ee41180c0aull, 0x2541e4ee41180c0bull, 0x2542689fffcb28eeull, 0x2542689fffcb28efull, 0x254825ed60f3717bull, 0x2548be494f1c991full, 0x2548be494f1c9920ull,
0x254b1fb907c137b1ull, 0x254b1fb907c137b2ull, 0x254c6ccfb5786e1cull, 0x2555519bc81a5295ull, 0x25559374a773e107ull, 0x255825ed60f3717bull, 0x2558be494f1c991full, 0x2558be494f1c9920ull,
0x255900222e762791ull, 0x255900222e762792ull, 0x255fac4e8c9730f5ull, 0x25609f8c354fb201ull, 0x25659374a773e107ull, 0x256825ed60f3717bull, 0x2568be494f1c991full, 0x2568be494f1c9920ull,
0x256b1fb907c137b1ull, 0x256b1fb907c137b2ull, 0x256be91df6c55138ull, 0x25709f8c354fb201ull, 0x2571c401d16b44d1ull, 0x2571c401d16b44d2ull, 0x257a0785abdc6159ull, 0x257a0785abdc615aull,
0x257b1fb907c137b1ull, 0x257b1fb907c137b2ull, 0x257be91df6c55138ull, 0x257c8dbc25253555ull, 0x2581b7bf91348859ull, 0x2581c401d16b44d1ull, 0x2581c401d16b44d2ull, 0x2584eed67913fceaull,
0x258a0785abdc6159ull, 0x258a0785abdc615aull, 0x258c8dbc25253555ull, 0x259171b2ba3b52c3ull, 0x2591b7bf91348859ull, 0x259a0785abdc6159ull, 0x259a0785abdc615aull, 0x259c8dbc25253555ull,
0x259d84a96ab50b80ull, 0x259d84a96ab50b81ull, 0x259e4c4e04918a68ull, 0x259e4c4e04918a69ull, 0x25a171b2ba3b52c3ull, 0x25a243d93f26f385ull, 0x25aa0785abdc6159ull, 0x25aa0785abdc615aull,
0x25af433b4a216094ull, 0x25b171b2ba3b52c3ull, 0x25b243d93f26f385ull, 0x25ba0785abdc6159ull, 0x25ba0785abdc615aull, 0x25bf54be7fdfadf9ull, 0x25bf54be7fdfadfaull, 0x25c089a82fa60186ull,
0x25c089a82fa60187ull, 0x25c171b2ba3b52c3ull, 0x25c194b925b7ed8eull, 0x25c2483a0f12569aull, 0x25ca0785abdc6159ull, 0x25ca0785abdc615aull, 0x25ca1908e19aaebfull, 0x25d0e5990c48e797ull,
0x25d194b925b7ed8eull, 0x25d5c55dcdeb00c1ull, 0x25da0785abdc6159ull, 0x25da0785abdc615aull, 0x25da1908e19aaebfull, 0x25dcc40611987935ull, 0x25dcc40611987936ull, 0x25e0e5990c48e797ull,
0x25e194b925b7ed8eull, 0x25e5c55dcdeb00c1ull, 0x25e7ef3357c2d7c0ull, 0x25eb0e35d202ea4cull, 0x25ee6cb3f54a5cbdull, 0x25f39b88441329c2ull, 0x25f5f9e76f25e8f1ull, 0x25f5f9e76f25e8f2ull,
0x25f6da4892d6ec40ull, 0x25f6da4892d6ec41ull, 0x25f7ef3357c2d7c0ull, 0x25fe6cb3f54a5cbdull, 0x26029b694bde7680ull, 0x26029b694bde7681ull, 0x26039b88441329c2ull, 0x2605f9e76f25e8f1ull,
0x2605f9e76f25e8f2ull, 0x2609041e1caec33full, 0x2609041e1caec340ull, 0x260e6cb3f54a5cbdull, 0x26129820b4e58ba8ull, 0x26129b694bde7680ull, 0x26129b694bde7681ull, 0x26139b88441329c2ull,
0x261deb002db38db0ull, 0x261e6cb3f54a5cbdull, 0x2620e8e1a341d26full, 0x2620e8e1a341d270ull, 0x2623dc6227de9148ull, 0x2623dc6227de9149ull, 0x2628826a5517f432ull, 0x2628826a5517f433ull,
0x262deb002db38db0ull, 0x262e6cb3f54a5cbdull, 0x2633dc6227de9148ull, 0x2633dc6227de9149ull, 0x263b5722334b74b4ull, 0x263b5722334b74b5ull, 0x263e6cb3f54a5cbdull, 0x263f45f7c998aec5ull,
0x263f45f7c998aec6ull, 0x26400f9dcef38067ull, 0x2641895e1141dfd3ull, 0x2641895e1141dfd4ull, 0x2643dc6227de9148ull, 0x2643dc6227de9149ull, 0x26473e28e21eee92ull, 0x264be0e8785f66a3ull,
0x264be0e8785f66a4ull, 0x264e6cb3f54a5cbdull, 0x26500f9dcef38067ull, 0x2652b2e01c90388eull, 0x2653dc6227de9148ull, 0x2653dc6227de9149ull, 0x265ad56e6bb4a5a7ull, 0x265ad56e6bb4a5a8ull,
0x265be0e8785f66a3ull, 0x265be0e8785f66a4ull, 0x265e6cb3f54a5cbdull, 0x26600f9dcef38067ull, 0x2663dc6227de9148ull, 0x2663dc6227de9149ull, 0x266505e4332cea03ull, 0x2669fc2a9766539full,
0x266d35d23626ad8full, 0x266d35d23626ad90ull, 0x266e6cb3f54a5cbdull, 0x26700f9dcef38067ull, 0x267505e4332cea03ull, 0x2679875333d0df7dull, 0x2679875333d0df7eull, 0x2679b94c143ba360ull,
0x2679fc2a9766539full, 0x26800f9dcef38067ull, 0x268505e4332cea03ull, 0x26875f9823b446b1ull, 0x26875f9823b446b2ull, 0x2687810765499ed1ull, 0x2688cf5ff51f100cull, 0x26900f9dcef38067ull,
0x2690f1451ea55dd9ull, 0x2690f1451ea55ddaull, 0x269505e4332cea03ull, 0x26964375cc3b446aull, 0x269b7437383bd2dbull, 0x269c774dc983086dull, 0x26a3b78ba35778c8ull, 0x26a46f7ee2094839ull,
0x26a46f7ee209483aull, 0x26a505e4332cea03ull, 0x26a5a4acffb41736ull, 0x26a5a4acffb41737ull, 0x26a64375cc3b446aull, 0x26ae4b44b3b5049dull, 0x26ae4b44b3b5049eull, 0x26b46f7ee2094839ull,
0x26b46f7ee209483aull, 0x26b505e4332cea03ull, 0x26b64375cc3b446aull, 0x26ba96c1a63bbb1dull, 0x26ba96c1a63bbb1eull, 0x26be4b44b3b5049dull, 0x26be4b44b3b5049eull, 0x26c0b298592c734full,
0x26c0b298592c7350ull, 0x26c28cd9dfe9180full, 0x26c28cd9dfe91810ull, 0x26c95d61cadf266bull, 0x26c95d61cadf266cull, 0x26cd0fcbf97f8d11ull, 0x26ce4b44b3b5049dull, 0x26ce4b44b3b5049eull,
0x26d0b298592c734full, 0x26d0b298592c7350ull, 0x26d28cd9dfe9180full, 0x26d28cd9dfe91810ull, 0x26dbd4533f4a1584ull, 0x26dbd4533f4a1585ull, 0x26dd0fcbf97f8d11ull, 0x26de4b44b3b5049dull,
0x26de4b44b3b5049eull, 0x26e1f88d6d9e5920ull, 0x26e1f88d6d9e5921ull, 0x26e418c36fce97a3ull, 0x26ebd4533f4a1584ull, 0x26ebd4533f4a1585ull, 0x26ed0fcbf97f8d11ull, 0x26ee4b44b3b5049dull,
0x26ee4b44b3b5049eull, 0x26f821e910a9aedfull, 0x26f89447b4a7125aull, 0x26fbd4533f4a1584ull, 0x26fbd4533f4a1585ull, 0x26fd0fcbf97f8d11ull, 0x26fe4b44b3b5049dull, 0x26fe4b44b3b5049eull,
0x27052e1c9e04ee06ull, 0x27052e1c9e04ee07ull, 0x270821e910a9aedfull, 0x270ad209d7134fb5ull, 0x270ad209d7134fb6ull, 0x270d0fcbf97f8d11ull, 0x270e4b44b3b5049dull, 0x270e4b44b3b5049eull,
0x2711db014d625a47ull, 0x2711db014d625a48ull, 0x2711f88d6d9e5920ull, 0x2711f88d6d9e5921ull, 0x27152e1c9e04ee06ull, 0x27152e1c9e04ee07ull, 0x271863abce6b82ecull, 0x271863abce6b82edull,
0x271d0fcbf97f8d11ull, 0x271e4b44b3b5049dull, 0x271e4b44b3b5049eull, 0x27203173a5111068ull, 0x27252e1c9e04ee06ull, 0x27252e1c9e04ee07ull, 0x272863abce6b82ecull, 0x272863abce6b82edull,
0x2729bcb0a8dcf952ull, 0x272d0fcbf97f8d11ull, 0x27352e1c9e04ee06ull, 0x27352e1c9e04ee07ull, 0x2736a09fcf484ebcull, 0x2736a09fcf484ebdull, 0x2736c8e436383879ull, 0x2736c8e43638387aull,
0x2739bcb0a8dcf952ull, 0x273d0fcbf97f8d11ull, 0x27434d847ea5bafdull, 0x27434d847ea5bafeull, 0x2743935505d1a393ull, 0x2743935505d1a394ull, 0x27452e1c9e04ee06ull, 0x27452e1c9e04ee07ull,
0x2745fb806a1e9340ull, 0x274b993afed217d2ull, 0x274b993afed217d3ull, 0x274b9d48c83c2c5bull, 0x27534d847ea5bafdull, 0x27534d847ea5bafeull, 0x2753935505d1a393ull, 0x2753935505d1a394ull,
0x27552e1c9e04ee06ull, 0x27552e1c9e04ee07ull, 0x2755fb806a1e9340ull, 0x275796480251ddb3ull, 0x275aacfcb88c92d6ull, 0x275aacfcb88c92d7ull, 0x27607ca04f96ee70ull, 0x27608e147161e895ull,
0x27608e147161e896ull, 0x2766fd409b9926eaull, 0x276796480251ddb3ull, 0x276aacfcb88c92d6ull, 0x276aacfcb88c92d7ull, 0x276f5e7906fa926dull, 0x27708e147161e895ull, 0x27708e147161e896ull,
0x277aacfcb88c92d6ull, 0x277aacfcb88c92d7ull, 0x277b7a6084a63810ull, 0x277c0cb4bf2e7c0aull, 0x277c0cb4bf2e7c0bull, 0x277d6c6cc5d0653eull, 0x277d6c6cc5d0653full, 0x277f5e7906fa926dull,
0x278aacfcb88c92d6ull, 0x278aacfcb88c92d7ull, 0x278b993afed217d2ull, 0x278b993afed217d3ull, 0x278c0cb4bf2e7c0aull, 0x278c0cb4bf2e7c0bull, 0x278d6c6cc5d0653eull, 0x278d6c6cc5d0653full,
0x278f5e7906fa926dull, 0x2795a43bc127b084ull, 0x2795a43bc127b085ull, 0x27968dd4a4a6d73aull, 0x27968dd4a4a6d73bull, 0x279b5cd8bbdd8770ull, 0x279b5cd8bbdd8771ull, 0x279c0cb4bf2e7c0aull,
0x279c0cb4bf2e7c0bull, 0x279d6c6cc5d0653eull, 0x279d6c6cc5d0653full, 0x279f5e7906fa926dull, 0x27a2a9bc22527cddull, 0x27a2a9bc22527cdeull, 0x27a9fd20b53b9e3cull, 0x27a9fd20b53b9e3dull,
0x27abb4c6bd8601bdull, 0x27abb4c6bd8601beull, 0x27ac0cb4bf2e7c0aull, 0x27ac0cb4bf2e7c0bull, 0x27ad6c6cc5d0653eull, 0x27ad6c6cc5d0653full, 0x27af5e7906fa926dull, 0x27b12c7c52e7e30aull,
0x27b2a9bc22527cddull, 0x27b2a9bc22527cdeull, 0x27b66efa2a7af778ull, 0x27bbb4c6bd8601bdull, 0x27bbb4c6bd8601beull, 0x27bd6c6cc5d0653eull, 0x27bd6c6cc5d0653full, 0x27bf5e7906fa926dull,
0x27c12c7c52e7e30aull, 0x27c2a9bc22527cddull, 0x27c2a9bc22527cdeull, 0x27c8457aacf13abbull, 0x27c8457aacf13abcull, 0x27cbb4c6bd8601bdull, 0x27cbb4c6bd8601beull, 0x27cc9099c1ab337eull,
0x27cde139378ff899ull, 0x27cde139378ff89aull, 0x27d2a9bc22527cddull, 0x27d2a9bc22527cdeull, 0x27d8457aacf13abbull, 0x27d8457aacf13abcull, 0x27dbb4c6bd8601bdull, 0x27dbb4c6bd8601beull,
0x27dc9099c1ab337eull, 0x27e0d33b9fdc399aull, 0x27e5779b67a1dbccull, 0x27e5779b67a1dbcdull, 0x27e8457aacf13abbull, 0x27e8457aacf13abcull, 0x27ec9099c1ab337eull, 0x27ef9f7cb6ca47c9ull,
0x27ef9f7cb6ca47caull, 0x27f0d33b9fdc399aull, 0x27f56c735140669eull, 0x27f56c735140669full, 0x27f6de8b0a498b44ull, 0x27f8457aacf13abbull, 0x27f8457aacf13abcull, 0x27ff69a11d5c079bull,
0x27ff9f7cb6ca47c9ull, 0x27ff9f7cb6ca47caull, 0x2800d33b9fdc399aull, 0x28056c735140669eull, 0x28056c735140669full, 0x2806de8b0a498b44ull, 0x2808457aacf13abbull, 0x2808457aacf13abcull,
0x280dfd1d6f839d8cull, 0x280dfd1d6f839d8dull, 0x280f9f7cb6ca47c9ull, 0x280f9f7cb6ca47caull, 0x2810d33b9fdc399aull, 0x281126e847b72873ull, 0x2815080a87d34800ull, 0x2815080a87d34801ull,
0x281a03be2c2b89ebull, 0x281a03be2c2b89ecull, 0x281dfd1d6f839d8cull, 0x281dfd1d6f839d8dull, 0x281fef8229ed85c3ull, 0x282126e847b72873ull, 0x2825080a87d34800ull, 0x2825080a87d34801ull,
0x282c962dccdbee15ull, 0x282dfd1d6f839d8cull, 0x282dfd1d6f839d8dull, 0x282e88928745d64bull, 0x282e88928745d64cull, 0x28306c776866677aull, 0x28306c776866677bull, 0x28334848c9af98e3ull,
0x2835080a87d34800ull, 0x2835080a87d34801ull, 0x2839c84e878c8f26ull, 0x283c962dccdbee15ull, 0x283dfd1d6f839d8cull, 0x283dfd1d6f839d8dull, 0x28406c776866677aull, 0x28406c776866677bull,
0x2843e6d5710cb4e8ull, 0x2843e6d5710cb4e9ull, 0x2846241a2af8ca4bull, 0x2846241a2af8ca4cull, 0x2849c84e878c8f26ull, 0x284a109bcd3e33ecull, 0x284dfd1d6f839d8cull, 0x284dfd1d6f839d8dull,
0x2852c5a05a4621d0ull, 0x2852c5a05a4621d1ull, 0x2853563ae5a96b5cull, 0x2853563ae5a96b5dull, 0x285a109bcd3e33ecull, 0x285a58e912efd8b2ull, 0x285ae9839e53223eull, 0x285dfd1d6f839d8cull,
0x285dfd1d6f839d8dull, 0x2862c5a05a4621d0ull, 0x2862c5a05a4621d1ull, 0x28639e882b5b1022ull, 0x28639e882b5b1023ull, 0x286a109bcd3e33ecull, 0x286ae9839e53223eull, 0x286dfd1d6f839d8cull,
0x286dfd1d6f839d8dull, 0x28738c74d9eea6f1ull, 0x28739e882b5b1022ull, 0x28739e882b5b1023ull, 0x28742f22b6be59aeull, 0x28742f22b6be59afull, 0x2879800141daea60ull, 0x287a109bcd3e33ecull,
0x287dfd1d6f839d8cull, 0x287dfd1d6f839d8dull, 0x28837a6188823dbfull, 0x28837a6188823dc0ull, 0x28838c74d9eea6f1ull, 0x28839e882b5b1022ull, 0x28839e882b5b1023ull, 0x28842f22b6be59aeull,
0x28842f22b6be59afull, 0x288a34c27017064full, 0x288a9458b78ed377ull, 0x288a9458b78ed378ull, 0x28904a616046e073ull, 0x28904a616046e074ull, 0x28937a6188823dbfull, 0x28937a6188823dc0ull,
0x28939e882b5b1022ull, 0x28939e882b5b1023ull, 0x28942f22b6be59aeull, 0x28942f22b6be59afull, 0x289a34c27017064full, 0x289e1c1e9ebb5f22ull, 0x289e1c1e9ebb5f23ull, 0x28a04a616046e073ull,
0x28a04a616046e074ull, 0x28a42f22b6be59aeull, 0x28a42f22b6be59afull, 0x28a8789bb9208546ull, 0x28ad64c29852639bull, 0x28afe0019251a4f8ull, 0x28b04a616046e073ull, 0x28b04a616046e074ull,
0x28b0fc87b6561ccaull, 0x28b6aa61b0bd9b0bull, 0x28b6aa61b0bd9b0cull, 0x28b925a0aabcdc68ull, 0x28b925a0aabcdc69ull, 0x28bd64c29852639bull, 0x28befcc2ac701241ull, 0x28c04a616046e073ull,
0x28c04a616046e074ull, 0x28c6aa61b0bd9b0bull, 0x28c6aa61b0bd9b0cull, 0x28c925a0aabcdc68ull, 0x28c925a0aabcdc69ull, 0x28cd64c29852639bull, 0x28cfc8c2b67ee994ull, 0x28d04a616046e073ull,
0x28d04a616046e074ull, 0x28d2ae617e73666cull, 0x28d2ae617e73666dull, 0x28d925a0aabcdc68ull, 0x28d925a0aabcdc69ull, 0x28dd64c29852639bull, 0x28dfc8c2b67ee994ull, 0x28e04a616046e073ull,
0x28e04a616046e074ull, 0x28e0b061654e4c1dull, 0x28e3ec00fb73071bull, 0x28e83c920de69ad8ull, 0x28e83c920de69ad9ull, 0x28ed64c29852639bull, 0x28ef62c2b1777deaull, 0x28ef62c2b1777debull,
0x28f0b061654e4c1dull, 0x28f82b22e9088e4dull, 0x28f82b22e9088e4eull, 0x28f8a861c9e2b55bull, 0x28f925a0aabcdc68ull, 0x28f925a0aabcdc69ull, 0x28fd64c29852639bull, 0x28ff62c2b1777deaull,
0x28ff62c2b1777debull, 0x2900b061654e4c1dull, 0x29082b22e9088e4dull, 0x29082b22e9088e4eull, 0x2908a861c9e2b55bull, 0x290b0692311a8c7bull, 0x290c35aa64b6780bull, 0x290d64c29852639bull,
0x29167305e5026214ull, 0x29182b22e9088e4dull, 0x29182b22e9088e4eull, 0x2918a861c9e2b55bull, 0x291b0692311a8c7bull, 0x291c35aa64b6780bull, 0x2926b366467a1925ull, 0x2928a861c9e2b55bull,
0x292925a0aabcdc68ull, 0x292925a0aabcdc69ull, 0x292b9e1e4ae88243ull, 0x292c35aa64b6780bull, 0x292e93dacbee4f2bull, 0x29323fa9e6fcf47dull, 0x29323fa9e6fcf47eull, 0x293925a0aabcdc68ull,
0x293925a0aabcdc69ull, 0x293b9e1e4ae88243ull, 0x293be9e457cf7d27ull, 0x293c35aa64b6780bull, 0x293e93dacbee4f2bull, 0x29423fa9e6fcf47dull, 0x29423fa9e6fcf47eull, 0x2945b2a548dce873ull,
0x294b9e1e4ae88243ull, 0x294c0fc75e42fa99ull, 0x294c35aa64b6780bull, 0x294d18fc8b6b68b7ull, 0x29513ee8e95fc3cbull, 0x29513ee8e95fc3ccull, 0x29523fa9e6fcf47dull, 0x29523fa9e6fcf47eull,
0x2955b2a548dce873ull, 0x295b9e1e4ae88243ull, 0x295c5b8d6b29f57dull, 0x295d18fc8b6b68b7ull, 0x2961bf49682e5c24ull, 0x2961bf49682e5c25ull, 0x29623fa9e6fcf47dull, 0x29623fa9e6fcf47eull,
0x296965d0ea242895ull, 0x296bfcd5db093be0ull, 0x296c5b8d6b29f57dull, 0x296d18fc8b6b68b7ull, 0x2971ff79a795a851ull, 0x29723fa9e6fcf47dull, 0x29723fa9e6fcf47eull, 0x297b3f66bac7c8a6ull,
0x297bfcd5db093be0ull, 0x297c2c31a31998aeull, 0x297c2c31a31998afull, 0x297d18fc8b6b68b7ull, 0x29823fa9e6fcf47dull, 0x29823fa9e6fcf47eull, 0x2984fda06446ece8ull, 0x298b3f66bac7c8a6ull,
0x298c2c31a31998aeull, 0x298c2c31a31998afull, 0x29917f1928c70ff8ull, 0x29946f8d0c15d67cull, 0x29946f8d0c15d67dull, 0x299b3f66bac7c8a6ull, 0x299b7f96fa2f14d2ull, 0x299b7f96fa2f14d3ull,
0x299c2c31a31998aeull, 0x299c2c31a31998afull, 0x299fdf5d4460d8d0ull, 0x299fdf5d4460d8d1ull, 0x29a17e05a8e5c56cull, 0x29a17f1928c70ff8ull, 0x29a46f8d0c15d67cull, 0x29a46f8d0c15d67dull,
0x29ac2c31a31998aeull, 0x29ac2c31a31998afull, 0x29afdf5d4460d8d0ull, 0x29afdf5d4460d8d1ull, 0x29b17e05a8e5c56cull, 0x29b17f1928c70ff8ull, 0x29b46f8d0c15d67cull, 0x29b46f8d0c15d67dull,
0x29ba2775283b57a6ull, 0x29ba2775283b57a7ull, 0x29bc2c31a31998aeull, 0x29bc2c31a31998afull, 0x29bfdf5d4460d8d0ull, 0x29bfdf5d4460d8d1ull, 0x29c06727963a9ef8ull, 0x29c06727963a9ef9ull,
0x29c46f8d0c15d67cull, 0x29c46f8d0c15d67dull, 0x29c5dedf72f8d3f6ull, 0x29c94fb3d51632d3ull, 0x29c94fb3d51632d4ull, 0x29ce1b5ac8da893bull, 0x29cfdf5d4460d8d0ull, 0x29cfdf5d4460d8d1ull,
0x29d06727963a9ef8ull, 0x29d06727963a9ef9ull, 0x29d07ba76b76a4e8ull, 0x29d19398fe0315e7ull, 0x29d19398fe0315e8ull, 0x29d5dd87131f36c7ull, 0x29de1b5ac8da893bull, 0x29dec76bb1d467d1ull,
0x29e07ba76b76a4e8ull, 0x29e4db6db5a868e6ull, 0x29e5dd87131f36c7ull, 0x29e9d16cb3be685bull, 0x29e9d16cb3be685cull, 0x29e9fc70edfce001ull, 0x29eec76bb1d467d1ull, 0x29f07ba76b76a4e8ull,
0x29f94fb3d51632d3ull, 0x29f94fb3d51632d4ull, 0x29f9d16cb3be685bull, 0x29f9d16cb3be685cull, 0x29fa532592669de3ull, 0x29fa532592669de4ull, 0x29fdf0568e9c1195ull, 0x29fdf0568e9c1196ull,
0x29fec76bb1d467d1ull, 0x2a007ba76b76a4e8ull, 0x2a049a9146544e22ull, 0x2a094fb3d51632d3ull, 0x2a094fb3d51632d4ull, 0x2a09d16cb3be685bull, 0x2a09d16cb3be685cull, 0x2a0fffcb7c0ae632ull,
0x2a0fffcb7c0ae633ull, 0x2a107ba76b76a4e8ull, 0x2a149a9146544e22ull, 0x2a199090446a4d97ull, 0x2a199090446a4d98ull, 0x2a19d16cb3be685bull, 0x2a19d16cb3be685cull, 0x2a1fffcb7c0ae632ull,
0x2a1fffcb7c0ae633ull, 0x2a249a9146544e22ull, 0x2a29b0fe7c145af9ull, 0x2a29b0fe7c145afaull, 0x2a29d16cb3be685bull, 0x2a29d16cb3be685cull, 0x2a2eeff57768f88bull, 0x2a2eeff57768f88cull,
0x2a2ef81105537be4ull, 0x2a2ff7afee2062daull, 0x2a349a9146544e22ull, 0x2a39b0fe7c145af9ull, 0x2a39b0fe7c145afaull, 0x2a39c13597e961aaull, 0x2a39c13597e961abull, 0x2a39d16cb3be685bull,
0x2a39d16cb3be685cull, 0x2a3a532592669de3ull, 0x2a3a532592669de4ull, 0x2a3eeff57768f88bull, 0x2a3eeff57768f88cull, 0x2a420b4ce47f060aull, 0x2a49b0fe7c145af9ull, 0x2a49b0fe7c145afaull,
0x2a49c13597e961aaull, 0x2a49c13597e961abull, 0x2a49c95125d3e503ull, 0x2a4a0212073d7c6eull, 0x2a4a0212073d7c6full, 0x2a4eeff57768f88bull, 0x2a4eeff57768f88cull, 0x2a520b4ce47f060aull,
0x2a59b0fe7c145af9ull, 0x2a59b0fe7c145afaull, 0x2a59c13597e961aaull, 0x2a59c13597e961abull, 0x2a59c95125d3e503ull, 0x2a59d98841a8ebb4ull, 0x2a5eeff57768f88bull, 0x2a5eeff57768f88cull,
0x2a6352ef1569aa16ull, 0x2a695feaf0eb3984ull, 0x2a695feaf0eb3985ull, 0x2a69b0fe7c145af9ull, 0x2a69b0fe7c145afaull, 0x2a69c95125d3e503ull, 0x2a69d98841a8ebb4ull, 0x2a6a2a9bccd20d29ull,
0x2a736326313eb0c7ull, 0x2a768e201d9ec78cull, 0x2a768e201d9ec78dull, 0x2a795feaf0eb3984ull, 0x2a795feaf0eb3985ull, 0x2a79b0fe7c145af9ull, 0x2a79b0fe7c145afaull, 0x2a79c95125d3e503ull,
0x2a7a2a9bccd20d29ull, 0x2a8027f529099350ull, 0x2a8027f529099351ull, 0x2a81b96458445d07ull, 0x2a833a9c6baa200cull, 0x2a833a9c6baa200dull, 0x2a8a2a9bccd20d29ull, 0x2a8cec2f84497870ull,
0x2a8e9e0ceb2e4f88ull, 0x2a8e9e0ceb2e4f89ull, 0x2a9027f529099350ull, 0x2a9027f529099351ull, 0x2a933a9c6baa200cull, 0x2a933a9c6baa200dull, 0x2a9af54ca8b8e0cdull, 0x2a9af54ca8b8e0ceull,
0x2a9b62dbe2f93212ull, 0x2a9e9e0ceb2e4f88ull, 0x2a9e9e0ceb2e4f89ull, 0x2aa027f529099350ull, 0x2aa027f529099351ull, 0x2aa1b148ca59d9aeull, 0x2aa1b148ca59d9afull, 0x2aa33a9c6baa200cull,
0x2aa33a9c6baa200dull, 0x2aa717f48a31806dull, 0x2aab62dbe2f93212ull, 0x2aae9e0ceb2e4f88ull, 0x2aae9e0ceb2e4f89ull, 0x2ab0ec9ef9b1b67full, 0x2ab0ec9ef9b1b680ull, 0x2ab1b148ca59d9aeull,
0x2ab1b148ca59d9afull, 0x2ab33a9c6baa200cull, 0x2ab33a9c6baa200dull, 0x2ab48a24ea3ae58dull, 0x2ab48a24ea3ae58eull, 0x2abe9e0ceb2e4f88ull, 0x2abe9e0ceb2e4f89ull, 0x2abec696b0c2e043ull,
0x2ac0ec9ef9b1b67full, 0x2ac0ec9ef9b1b680ull, 0x2ac14ef3e205c817ull, 0x2ac2bb61f1f64e06ull, 0x2ac2bb61f1f64e07ull, 0x2ac33a9c6baa200cull, 0x2ac33a9c6baa200dull, 0x2ac99418eab49a8bull,
0x2acec696b0c2e043ull, 0x2ad0ec9ef9b1b67full, 0x2ad0ec9ef9b1b680ull, 0x2ad14ef3e205c817ull, 0x2ad71dfb957030e2ull, 0x2ad71dfb957030e3ull, 0x2ad99418eab49a8bull, 0x2adae93e923b7fe2ull,
0x2adae93e923b7fe3ull, 0x2adec696b0c2e043ull, 0x2ae14ef3e205c817ull, 0x2ae80ac54964542dull, 0x2ae9039d13d5d862ull, 0x2ae9039d13d5d863ull, 0x2ae99418eab49a8bull, 0x2aedb6ab6f0c03c5ull,
0x2af05c2322d2f457ull, 0x2af14ef3e205c817ull, 0x2af99418eab49a8bull, 0x2afba5622ce04f28ull, 0x2afd545686b7f22dull, 0x2afd545686b7f22eull, 0x2b00d58b826c5e37ull, 0x2b014ef3e205c817ull,
0x2b0241c4a1389bd7ull, 0x2b09039d13d5d862ull, 0x2b09039d13d5d863ull, 0x2b0ba5622ce04f28ull, 0x2b114ef3e205c817ull, 0x2b1241c4a1389bd7ull, 0x2b167a2b07730b9full, 0x2b167a2b07730ba0ull,
0x2b19039d13d5d862ull, 0x2b19039d13d5d863ull, 0x2b19b9b9a33bf732ull, 0x2b19b9b9a33bf733ull, 0x2b1ba5622ce04f28ull, 0x2b21123fb2391327ull, 0x2b214ef3e205c817ull, 0x2b24bc09a1a83b5eull,
0x2b29d813bb2251aaull, 0x2b29d813bb2251abull, 0x2b2a332202d56112ull, 0x2b2a332202d56113ull, 0x2b2d638392ab1f69ull, 0x2b2d638392ab1f6aull, 0x2b31123fb2391327ull, 0x2b314ef3e205c817ull,
0x2b37d41824d64fb2ull, 0x2b37d41824d64fb3ull, 0x2b39e740c7157ee6ull, 0x2b39e740c7157ee7ull, 0x2b3a332202d56112ull, 0x2b3a332202d56113ull, 0x2b3dc1b0cfd3fb22ull, 0x2b3dc1b0cfd3fb23ull,
0x2b41475d5c0c3179ull, 0x2b415e20edf8f553ull, 0x2b47d41824d64fb2ull, 0x2b47d41824d64fb3ull, 0x2b49e740c7157ee6ull, 0x2b49e740c7157ee7ull, 0x2b49eed74d0f1584ull, 0x2b49eed74d0f1585ull,
0x2b4acae47a55256aull, 0x2b4acae47a55256bull, 0x2b51475d5c0c3179ull, 0x2b515e20edf8f553ull, 0x2b594f7e4f95ba8eull, 0x2b594f7e4f95ba8full, 0x2b59e740c7157ee6ull, 0x2b59e740c7157ee7ull,
0x2b59eed74d0f1584ull, 0x2b59eed74d0f1585ull, 0x2b61475d5c0c3179ull, 0x2b614b289f08fcc8ull, 0x2b615e20edf8f553ull, 0x2b694f7e4f95ba8eull, 0x2b694f7e4f95ba8full, 0x2b69e740c7157ee6ull,
0x2b69e740c7157ee7ull, 0x2b69ecf1ab90afddull, 0x2b714b289f08fcc8ull, 0x2b715e20edf8f553ull, 0x2b77d41824d64fb2ull, 0x2b77d41824d64fb3ull, 0x2b79ae57da459545ull, 0x2b79ae57da459546ull,
0x2b79e740c7157ee6ull, 0x2b79e740c7157ee7ull, 0x2b7b88978fb4dad8ull, 0x2b7b88978fb4dad9ull, 0x2b814b289f08fcc8ull, 0x2b815e20edf8f553ull, 0x2b81bcfa78a8d00aull, 0x2b89ae57da459545ull,
0x2b89ae57da459546ull, 0x2b89ddc49f9d82a1ull, 0x2b8e3a0aeed7be18ull, 0x2b8e3a0aeed7be19ull, 0x2b914b289f08fcc8ull, 0x2b91bcfa78a8d00aull, 0x2b959df2c6cb3bfaull, 0x2b99ae57da459545ull,
0x2b99ae57da459546ull, 0x2b99ddc49f9d82a1ull, 0x2b9e3a0aeed7be18ull, 0x2b9e3a0aeed7be19ull, 0x2ba1bcfa78a8d00aull, 0x2ba59df2c6cb3bfaull, 0x2ba7bddbb3345f4dull, 0x2ba7bddbb3345f4eull,
0x2ba7d41824d64fb2ull, 0x2ba7d41824d64fb3ull, 0x2bac75b76a6c7da2ull, 0x2bae1d96786fc948ull, 0x2bb0367615186cfbull, 0x2bb0367615186cfcull, 0x2bb37e09da6218a6ull, 0x2bb37e09da6218a7ull,
0x2bb62c3916d3040cull, 0x2bb62c3916d3040dull, 0x2bbd255864e72e4cull, 0x2bbe1d96786fc948ull, 0x2bc62c3916d3040cull, 0x2bc62c3916d3040dull, 0x2bc69630da53d6f6ull, 0x2bc961a595d93523ull,
0x2bcb056f787e0af8ull, 0x2bcb056f787e0af9ull, 0x2bce1d96786fc948ull, 0x2bcec922478c0421ull, 0x2bcec922478c0422ull, 0x2bd2d27e0b45ddcdull, 0x2bd69630da53d6f6ull, 0x2bd7d41824d64fb2ull,
0x2bd7d41824d64fb3ull, 0x2bdba1c7e36ad7cfull, 0x2bddb39eb4eef65eull, 0x2bddb39eb4eef65full, 0x2bdec922478c0421ull, 0x2bdec922478c0422ull, 0x2be0f0a4a3bee138ull, 0x2be0f0a4a3bee139ull,
0x2be2d27e0b45ddcdull, 0x2be7d41824d64fb2ull, 0x2be7d41824d64fb3ull, 0x2bedb39eb4eef65eull, 0x2bedb39eb4eef65full, 0x2beec922478c0421ull, 0x2beec922478c0422ull, 0x2bf0557dd789805bull,
0x2bf0f0a4a3bee138ull, 0x2bf0f0a4a3bee139ull, 0x2bf2d27e0b45ddcdull, 0x2bfbd1c54d67f9caull, 0x2bfdb39eb4eef65eull, 0x2bfdb39eb4eef65full, 0x2bfec922478c0421ull, 0x2bfec922478c0422ull,
0x2c00557dd789805bull, 0x2c00f0a4a3bee138ull, 0x2c00f0a4a3bee139ull, 0x2c02d27e0b45ddcdull, 0x2c0db39eb4eef65eull, 0x2c0db39eb4eef65full, 0x2c0ec922478c0421ull, 0x2c0ec922478c0422ull,
0x2c0ed9874a72de1dull, 0x2c0ed9874a72de1eull, 0x2c10f0a4a3bee138ull, 0x2c10f0a4a3bee139ull, 0x2c12d27e0b45ddcdull, 0x2c17d41824d64fb2ull, 0x2c17d41824d64fb3ull, 0x2c1cf7ade2ebe189ull,
0x2c1f2b8058f52009ull, 0x2c1f2b8058f5200aull, 0x2c1f6c7b9534d1fdull, 0x2c22d27e0b45ddcdull, 0x2c2379f099a86227ull, 0x2c2379f099a86228ull, 0x2c238e6edd48f2a2ull, 0x2c238e6edd48f2a3ull,
0x2c255bca012f5ebcull, 0x2c27e515f718dfabull, 0x2c2b7fcc3ee5b7deull, 0x2c3379f099a86227ull, 0x2c3379f099a86228ull, 0x2c338e6edd48f2a2ull, 0x2c338e6edd48f2a3ull, 0x2c355bca012f5ebcull,
0x2c37e515f718dfabull, 0x2c3b7fcc3ee5b7deull, 0x2c3e27d59a401185ull, 0x2c3e27d59a401186ull, 0x2c438e6edd48f2a2ull, 0x2c438e6edd48f2a3ull, 0x2c449fd92f2c49e6ull, 0x2c449fd92f2c49e7ull,
0x2c455bca012f5ebcull, 0x2c46a06ffc241f33ull, 0x2c46a06ffc241f34ull, 0x2c4a6e61ed02609aull, 0x2c4da2a0e2ac6666ull, 0x2c5004d780e3870dull, 0x2c538e6edd48f2a2ull, 0x2c538e6edd48f2a3ull,
0x2c541724063a9e44ull, 0x2c541724063a9e45ull, 0x2c5a6e61ed02609aull, 0x2c5bf7627c6ff6e2ull, 0x2c5bf7627c6ff6e3ull, 0x2c5da2a0e2ac6666ull, 0x2c6004d780e3870dull, 0x2c638e6edd48f2a2ull,
0x2c638e6edd48f2a3ull, 0x2c63d2c971c1c873ull, 0x2c63d2c971c1c874ull, 0x2c6ab2bc817b366bull, 0x2c6af71715f40c3cull, 0x2c6bf7627c6ff6e2ull, 0x2c6bf7627c6ff6e3ull, 0x2c717cda3e0e8d5dull,
0x2c738e6edd48f2a2ull, 0x2c738e6edd48f2a3ull, 0x2c73f4f6bbfe335cull, 0x2c7ab2bc817b366bull, 0x2c7af71715f40c3cull, 0x2c838e6edd48f2a2ull, 0x2c838e6edd48f2a3ull, 0x2c8439515077092dull,
0x2c8753d99ebcb4e3ull, 0x2c8753d99ebcb4e4ull, 0x2c8a4c34a2c5f5b1ull, 0x2c8a4c34a2c5f5b2ull, 0x2c8ab2bc817b366bull, 0x2c8c4cdbfc503951ull, 0x2c90da6e6db887a5ull, 0x2c90da6e6db887a6ull,
0x2c92569befbd280cull, 0x2c92569befbd280dull, 0x2c938e6edd48f2a2ull, 0x2c938e6edd48f2a3ull, 0x2c9c4cdbfc503951ull, 0x2c9dab1785847739ull, 0x2c9faffa307ac342ull, 0x2ca0da6e6db887a5ull,
0x2ca0da6e6db887a6ull, 0x2ca2569befbd280cull, 0x2ca2569befbd280dull, 0x2ca38e6edd48f2a2ull, 0x2ca38e6edd48f2a3ull, 0x2cac51174dbc41baull, 0x2cac51174dbc41bbull, 0x2cafaffa307ac342ull,
0x2cb0da6e6db887a5ull, 0x2cb0da6e6db887a6ull, 0x2cb2346ea580bd24ull, 0x2cb6426f4cd95d9full, 0x2cb6426f4cd95da0ull, 0x2cbc51174dbc41baull, 0x2cbc51174dbc41bbull, 0x2cbf00dc6be0a44eull,
0x2cbfaffa307ac342ull, 0x2cc2346ea580bd24ull, 0x2cc6426f4cd95d9full, 0x2cc6426f4cd95da0ull, 0x2cc7c3fba45c1271ull, 0x2cc7c3fba45c1272ull, 0x2cc9f4a5c078e637ull, 0x2cc9f4a5c078e638ull,
0x2ccc51174dbc41baull, 0x2ccc51174dbc41bbull, 0x2ccf00dc6be0a44eull, 0x2cd2346ea580bd24ull, 0x2cd740a550e87b3aull, 0x2cd740a550e87b3bull, 0x2cd7c3fba45c1271ull, 0x2cd7c3fba45c1272ull,
0x2cda0a89790c2a16ull, 0x2cde02a667d186b3ull, 0x2cde81c169d91580ull, 0x2cde81c169d91581ull, 0x2ce17cda3e0e8d5dull, 0x2ce2346ea580bd24ull, 0x2ce6c18a4ee0ec6dull, 0x2cee02a667d186b3ull,
0x2cee81c169d91580ull, 0x2cee81c169d91581ull, 0x2cf2aab573f4ae37ull, 0x2cf4f14348a4c5dbull, 0x2cf4f14348a4c5dcull, 0x2cf6c18a4ee0ec6dull, 0x2cf7bfc052f00a08ull, 0x2cfe02a667d186b3ull,
0x2cfe81c169d91580ull, 0x2cfe81c169d91581ull, 0x2d02aab573f4ae37ull, 0x2d04f14348a4c5dbull, 0x2d04f14348a4c5dcull, 0x2d0ae1335d60c85dull, 0x2d0ae1335d60c85eull, 0x2d0e02a667d186b3ull,
0x2d0e469e029f1cf7ull, 0x2d0e81c169d91580ull, 0x2d0e81c169d91581ull, 0x2d14f14348a4c5dbull, 0x2d14f14348a4c5dcull, 0x2d19b982593eedaeull, 0x2d1ae1335d60c85dull, 0x2d1ae1335d60c85eull,
0x2d1d5cba67869261ull, 0x2d1e02a667d186b3ull, 0x2d24f14348a4c5dbull, 0x2d24f14348a4c5dcull, 0x2d27e93b5302c71cull, 0x2d27e93b5302c71dull, 0x2d29b982593eedaeull, 0x2d2dafb067ac0c8aull,
0x2d2e02a667d186b3ull, 0x2d34f14348a4c5dbull, 0x2d34f14348a4c5dcull, 0x2d366d3f4dd3c67cull, 0x2d3b5fa3def48147ull, 0x2d3dd92b67bec99eull, 0x2d3dd92b67bec99full, 0x2d3e02a667d186b3ull,
0x2d44f14348a4c5dbull, 0x2d44f14348a4c5dcull, 0x2d466d3f4dd3c67cull, 0x2d4b5fa3def48147ull, 0x2d4e02a667d186b3ull, 0x2d54f14348a4c5dbull, 0x2d54f14348a4c5dcull, 0x2d566d3f4dd3c67cull,
0x2d56c0354df940a5ull, 0x2d5a37f2dad2a697ull, 0x2d5a37f2dad2a698ull, 0x2d5a8c931c19b77aull, 0x2d5a8c931c19b77bull, 0x2d5d863567994f75ull, 0x2d5d863567994f76ull, 0x2d60d1ef7a5ed4ddull,
0x2d62f581c0fa6089ull, 0x2d62f581c0fa608aull, 0x2d64f14348a4c5dbull, 0x2d64f14348a4c5dcull, 0x2d67beeb325f3eabull, 0x2d6d863567994f75ull, 0x2d6d863567994f76ull, 0x2d6fd342ae479836ull,
0x2d6fd342ae479837ull, 0x2d70d1ef7a5ed4ddull, 0x2d74f14348a4c5dbull, 0x2d74f14348a4c5dcull, 0x2d77beeb325f3eabull, 0x2d7c088f2148b81bull, 0x2d7d059ac48d1f67ull, 0x2d7fd342ae479836ull,
0x2d7fd342ae479837ull, 0x2d80a8747a4c17c8ull, 0x2d80a8747a4c17c9ull, 0x2d80d1ef7a5ed4ddull, 0x2d82f581c0fa6089ull, 0x2d82f581c0fa608aull, 0x2d8c088f2148b81bull, 0x2d8f54bcdca56490ull,
0x2d8f54bcdca56491ull, 0x2d8fd342ae479836ull, 0x2d8fd342ae479837ull, 0x2d90a8747a4c17c8ull, 0x2d90a8747a4c17c9ull, 0x2d91cefb1da33c29ull, 0x2d96ebc51f75fa22ull, 0x2d997a2a205f591eull,
0x2d997a2a205f591full, 0x2d9c088f2148b81bull, 0x2d9c47d20a19d1eeull, 0x2da1cefb1da33c29ull, 0x2da97a2a205f591eull, 0x2da97a2a205f591full, 0x2da98ff2091db5ddull, 0x2dac088f2148b81bull,
0x2dac47d20a19d1eeull, 0x2db01b5ceec3fd47ull, 0x2db1cefb1da33c29ull, 0x2db3bf38d881da96ull, 0x2db97a2a205f591eull, 0x2db97a2a205f591full, 0x2dbe96f422321717ull, 0x2dbe96f422321718ull,
0x2dbfddaac5598641ull, 0x2dc3bf38d881da96ull, 0x2dc5af7693607903ull, 0x2dc6d5fd36b79d63ull, 0x2dc6d5fd36b79d64ull, 0x2dc97a2a205f591eull, 0x2dc97a2a205f591full, 0x2dcca6b6675378aaull,
0x2dcca6b6675378abull, 0x2dd3bf38d881da96ull, 0x2dd5af7693607903ull, 0x2dd6d5fd36b79d63ull, 0x2dd6d5fd36b79d64ull, 0x2ddca6b6675378aaull, 0x2ddca6b6675378abull, 0x2dde69f8567fcfc4ull,
0x2de0985c7a63f264ull, 0x2de3bf38d881da96ull, 0x2de5af7693607903ull, 0x2debae9789e42974ull, 0x2deca6b6675378aaull, 0x2deca6b6675378abull, 0x2df3bf38d881da96ull, 0x2df5af7693607903ull,
0x2df8af070ea2513bull, 0x2df8af070ea2513cull, 0x2dfbae9789e42974ull, 0x2dfdfba4d0927235ull, 0x2dff9aacf11b5b98ull, 0x2dff9aacf11b5b99ull, 0x2e03bf38d881da96ull, 0x2e05af7693607903ull,
0x2e08af070ea2513bull, 0x2e08af070ea2513cull, 0x2e09d58db1f9759cull, 0x2e0c24d9ffded66aull, 0x2e0f9aacf11b5b98ull, 0x2e0f9aacf11b5b99ull, 0x2e13023b360fe1daull, 0x2e13023b360fe1dbull,
0x2e15af7693607903ull, 0x2e17c28222acf74full, 0x2e17c28222acf750ull, 0x2e17f2096c305880ull, 0x2e18af070ea2513bull, 0x2e18af070ea2513cull, 0x2e1c24d9ffded66aull, 0x2e25af7693607903ull,
0x2e27c28222acf74full, 0x2e27c28222acf750ull, 0x2e28af070ea2513bull, 0x2e28af070ea2513cull, 0x2e2c24d9ffded66aull, 0x2e2e74264dc43738ull, 0x2e351ba37fe720cfull, 0x2e351ba37fe720d0ull,
0x2e37c28222acf74full, 0x2e37c28222acf750ull, 0x2e38ea28499fa7b6ull, 0x2e38ea28499fa7b7ull, 0x2e3c24d9ffded66aull, 0x2e3e74264dc43738ull, 0x2e3fb83d8e9a06d6ull, 0x2e451ba37fe720cfull,
0x2e451ba37fe720d0ull, 0x2e46d71cba53296aull, 0x2e48ea28499fa7b6ull, 0x2e48ea28499fa7b7ull, 0x2e4dee8bc73c6ea0ull, 0x2e4f5f8bb61e051dull, 0x2e4f5f8bb61e051eull, 0x2e5110ddf795b767ull,
0x2e530897f09aa283ull, 0x2e551ba37fe720cfull, 0x2e551ba37fe720d0ull, 0x2e5d88c0e56a6952ull, 0x2e5d88c0e56a6953ull, 0x2e5e0c1c64bb19ddull, 0x2e5e0c1c64bb19deull, 0x2e5f5f8bb61e051dull,
0x2e5f5f8bb61e051eull, 0x2e6121558bbe5f0full, 0x2e6121558bbe5f10ull, 0x2e630897f09aa283ull, 0x2e651ba37fe720cfull, 0x2e651ba37fe720d0ull, 0x2e6993dff2511d56ull, 0x2e6993dff2511d57ull,
0x2e6b9106ec657e36ull, 0x2e6b9106ec657e37ull, 0x2e6f5f8bb61e051dull, 0x2e6f5f8bb61e051eull, 0x2e70a3670d7d2448ull, 0x2e70a3670d7d2449ull, 0x2e728aa9725967bcull, 0x2e730897f09aa283ull,
0x2e751ba37fe720cfull, 0x2e751ba37fe720d0ull, 0x2e7b9106ec657e36ull, 0x2e7b9106ec657e37ull, 0x2e7e60f83913d4adull, 0x2e7e60f83913d4aeull, 0x2e828aa9725967bcull, 0x2e840474ed1d1811ull,
0x2e89e8bbc6a9d826ull, 0x2e89e8bbc6a9d827ull, 0x2e8b9106ec657e36ull, 0x2e8b9106ec657e37ull, 0x2e928aa9725967bcull, 0x2e940474ed1d1811ull, 0x2e9b9106ec657e36ull, 0x2e9b9106ec657e37ull,
0x2e9e8b6623403215ull, 0x2e9e8b6623403216ull, 0x2ea03954440e3ac4ull, 0x2ea03954440e3ac5ull, 0x2ea28aa9725967bcull, 0x2ea2c9a0b17a051full, 0x2ea2c9a0b17a0520ull, 0x2ea6ee5c8fcf2447ull,
0x2ea6ee5c8fcf2448ull, 0x2eab9106ec657e36ull, 0x2eab9106ec657e37ull, 0x2eae8b6623403215ull, 0x2eae8b6623403216ull, 0x2eb03954440e3ac4ull, 0x2eb03954440e3ac5ull, 0x2eb51108055c0975ull,
0x2eb51108055c0976ull, 0x2eb72d53ceefc1abull, 0x2eb7625d33a7366dull, 0x2ebb9106ec657e36ull, 0x2ebb9106ec657e37ull, 0x2ebde25c1ab0ab2eull, 0x2ec03954440e3ac4ull, 0x2ec03954440e3ac5ull,
0x2ec2c9a0b17a051full, 0x2ec2c9a0b17a0520ull, 0x2ec5f27f934caeb9ull, 0x2ec5f27f934caebaull, 0x2ec72d53ceefc1abull, 0x2ecb9106ec657e36ull, 0x2ecb9106ec657e37ull, 0x2ecf2a825166905bull,
0x2ecf2a825166905cull, 0x2ed03954440e3ac4ull, 0x2ed03954440e3ac5ull, 0x2ed2c9a0b17a051full, 0x2ed2c9a0b17a0520ull, 0x2ed45e10226359ecull, 0x2ed45e10226359edull, 0x2ed72d53ceefc1abull,
0x2edea5ead59bec76ull, 0x2edea5ead59bec77ull, 0x2edf2a825166905bull, 0x2edf2a825166905cull, 0x2ee2c9a0b17a051full, 0x2ee2c9a0b17a0520ull, 0x2ee393d869eeaf86ull, 0x2ee560961c6f3898ull,
0x2ee560961c6f3899ull, 0x2ee72d53ceefc1abull, 0x2ee9c0f4bb204095ull, 0x2eec1249e96b6d8cull, 0x2eec1249e96b6d8dull, 0x2ef07ba001f38cb7ull, 0x2ef135314090b052ull, 0x2ef135314090b053ull,
0x2ef393d869eeaf86ull, 0x2ef52847dad80453ull, 0x2efc1249e96b6d8cull, 0x2efc1249e96b6d8dull, 0x2efc938ce6715ce2ull, 0x2efc938ce6715ce3ull, 0x2f007ba001f38cb7ull, 0x2f0393d869eeaf86ull,
0x2f052847dad80453ull, 0x2f0bc9552dfcb27cull, 0x2f0c1249e96b6d8cull, 0x2f0c1249e96b6d8dull, 0x2f0c938ce6715ce2ull, 0x2f0c938ce6715ce3ull, 0x2f12280cf53299f4ull, 0x2f1393d869eeaf86ull,
0x2f1878ce846a5b67ull, 0x2f1878ce846a5b68ull, 0x2f1bc9552dfcb27cull, 0x2f1c1249e96b6d8cull, 0x2f1c1249e96b6d8dull, 0x2f1f6b23cfe98806ull, 0x2f1f6b23cfe98807ull, 0x2f22280cf53299f4ull,
0x2f252847dad80453ull, 0x2f2878ce846a5b67ull, 0x2f2878ce846a5b68ull, 0x2f2b26c53d47b590ull, 0x2f2f6b23cfe98806ull, 0x2f2f6b23cfe98807ull, 0x2f32280cf53299f4ull, 0x2f352847dad80453ull,
0x2f3827868c0fdcf1ull, 0x2f3827868c0fdcf2ull, 0x2f3bf1f92a29f1b7ull, 0x2f3f6b23cfe98806ull, 0x2f3f6b23cfe98807ull, 0x2f415dd53cbdef8dull, 0x2f415dd53cbdef8eull, 0x2f42280cf53299f4ull,
0x2f4bf1f92a29f1b7ull, 0x2f4f6b23cfe98806ull, 0x2f4f6b23cfe98807ull, 0x2f52280cf53299f4ull, 0x2f56b210327f4071ull, 0x2f5bf1f92a29f1b7ull, 0x2f5d2622314334c8ull, 0x2f5f56d1d1d2e869ull,
0x2f5f6b23cfe98806ull, 0x2f5f6b23cfe98807ull, 0x2f652847dad80453ull, 0x2f66b210327f4071ull, 0x2f6b8c5f33b8d3a3ull, 0x2f6b8c5f33b8d3a4ull, 0x2f6bf1f92a29f1b7ull, 0x2f6da4657dfe6d10ull,
0x2f6f6b23cfe98806ull, 0x2f6f6b23cfe98807ull, 0x2f752847dad80453ull, 0x2f756215f494941full, 0x2f756215f4949420ull, 0x2f76b210327f4071ull, 0x2f7bf1f92a29f1b7ull, 0x2f7ccb2f54142f63ull,
0x2f7ccb2f54142f64ull, 0x2f7da4657dfe6d10ull, 0x2f856215f494941full, 0x2f856215f4949420ull, 0x2f86b210327f4071ull, 0x2f896656ac6b38b1ull, 0x2f896656ac6b38b2ull, 0x2f8bb6972029ba64ull,
0x2f8bb6972029ba65ull, 0x2f8bf1f92a29f1b7ull, 0x2f8da4657dfe6d10ull, 0x2f91ad8944d4c67dull, 0x2f91ad8944d4c67eull, 0x2f93023f538a6961ull, 0x2f956215f494941full, 0x2f956215f4949420ull,
0x2f963b4c1e7ed1ccull, 0x2f996656ac6b38b1ull, 0x2f996656ac6b38b2ull, 0x2f9b8c5f33b8d3a3ull, 0x2f9b8c5f33b8d3a4ull, 0x2fa286bf6ebf042aull, 0x2fa3023f538a6961ull, 0x2fa387cf9cb4ad4eull,
0x2fa387cf9cb4ad4full, 0x2fa56215f494941full, 0x2fa56215f4949420ull, 0x2fad1ae35c2b0653ull, 0x2fad1ae35c2b0654ull, 0x2faeb769c1a53a89ull, 0x2fb0ac7916df1d59ull, 0x2fb286bf6ebf042aull,
0x2fb387cf9cb4ad4eull, 0x2fb387cf9cb4ad4full, 0x2fb474f2c8a4a0b7ull, 0x2fb5b1c9fcab6b0full, 0x2fb5b1c9fcab6b10ull, 0x2fbef529b40aed24ull, 0x2fbef529b40aed25ull, 0x2fc0ac7916df1d59ull,
0x2fc286bf6ebf042aull, 0x2fc5b1c9fcab6b0full, 0x2fc5b1c9fcab6b10ull, 0x2fcb8c5f33b8d3a3ull, 0x2fcb8c5f33b8d3a4ull, 0x2fce0806881af9bcull, 0x2fcef529b40aed24ull, 0x2fcef529b40aed25ull,
0x2fd0ac7916df1d59ull, 0x2fd286bf6ebf042aull, 0x2fd5b1c9fcab6b0full, 0x2fd5b1c9fcab6b10ull, 0x2fd89f1498321f59ull, 0x2fd89f1498321f5aull, 0x2fdef529b40aed24ull, 0x2fdef529b40aed25ull,
0x2fdfb07c5aec9a37ull, 0x2fe286bf6ebf042aull, 0x2fe5b1c9fcab6b0full, 0x2fe5b1c9fcab6b10ull, 0x2fe7286f4a6ec534ull, 0x2fe7286f4a6ec535ull, 0x2fe82e7ab8e5dbc8ull, 0x2fe91b9de4d5cf30ull,
0x2fe91b9de4d5cf31ull, 0x2fefb07c5aec9a37ull, 0x2ff479ee09260e26ull, 0x2ff66d1ca38d1822ull, 0x2ff7286f4a6ec534ull, 0x2ff7286f4a6ec535ull, 0x2ff82e7ab8e5dbc8ull, 0x2ff91b9de4d5cf30ull,
0x2ff91b9de4d5cf31ull, 0x300479ee09260e26ull, 0x3004f67755c9bdfdull, 0x30066d1ca38d1822ull, 0x3007286f4a6ec534ull, 0x3007286f4a6ec535ull, 0x30089f1498321f59ull, 0x30089f1498321f5aull,
0x30091b9de4d5cf30ull, 0x30091b9de4d5cf31ull, 0x3010d1d57aa9d219ull, 0x3010d1d57aa9d21aull, 0x3014f67755c9bdfdull, 0x30189f1498321f59ull, 0x30189f1498321f5aull, 0x30191b9de4d5cf30ull,
0x30191b9de4d5cf31ull, 0x301cc3b673520b3dull, 0x301e3a19671f52baull, 0x30218d28218b7f2cull, 0x3023fd22628c4ba7ull, 0x30291b9de4d5cf30ull, 0x30291b9de4d5cf31ull, 0x302998698b6f91afull,
0x302998698b6f91b0ull, 0x302c0863cc705e2aull, 0x302c0863cc705e2bull, 0x302e3a19671f52baull, 0x30318d28218b7f2cull, 0x3033fd22628c4ba7ull, 0x303535c563f3e088ull, 0x303535c563f3e089ull,
0x303998698b6f91afull, 0x303998698b6f91b0ull, 0x303c0863cc705e2aull, 0x303c0863cc705e2bull, 0x303f3264f2847a70ull, 0x30418d28218b7f2cull, 0x3043fd22628c4ba7ull, 0x304535c563f3e088ull,
0x304535c563f3e089ull, 0x304bca0e8fa10195ull, 0x304c0863cc705e2aull, 0x304c0863cc705e2bull, 0x304dbd0b668f7d93ull, 0x30518d28218b7f2cull, 0x3055f07229ee5ef7ull, 0x3057e3987916a69eull,
0x305bca0e8fa10195ull, 0x305dbd0b668f7d93ull, 0x305e3a08d0a1ce10ull, 0x3065b1f374e536b8ull, 0x3065b1f374e536b9ull, 0x3065f07229ee5ef7ull, 0x306765cbb5e35bd4ull, 0x3067e3987916a69eull,
0x3069d6bec83eee45ull, 0x306b8d0514a00247ull, 0x306b8d0514a00248ull, 0x30737f7f1792cc86ull, 0x3075b1f374e536b8ull, 0x3075b1f374e536b9ull, 0x3077e3987916a69eull, 0x3079d6bec83eee45ull,
0x307f7351b2f09195ull, 0x307f7351b2f09196ull, 0x30818c58c86a84dfull, 0x3081eab25ad0fcf6ull, 0x3081eab25ad0fcf7ull, 0x3085b1f374e536b8ull, 0x3085b1f374e536b9ull, 0x3087e3987916a69eull,
0x3088dd2ba0aaca71ull, 0x3088dd2ba0aaca72ull, 0x308f7351b2f09195ull, 0x308f7351b2f09196ull, 0x309092c5a0d6610bull, 0x309092c5a0d6610cull, 0x3091eab25ad0fcf6ull, 0x3091eab25ad0fcf7ull,
0x3092e445826520caull, 0x309f7351b2f09195ull, 0x309f7351b2f09196ull, 0x309fc01f24666d26ull, 0x309fc01f24666d27ull, 0x30a1eab25ad0fcf6ull, 0x30a1eab25ad0fcf7ull, 0x30a37f7f1792cc86ull,
0x30ab5cd51c038d5bull, 0x30ab5cd51c038d5cull, 0x30ad802b63c849eeull, 0x30ad802b63c849efull, 0x30addc7e975c5045ull, 0x30addc7e975c5046ull, 0x30aed611bef07419ull, 0x30b0aadd9d249b81ull,
0x30b0aadd9d249b82ull, 0x30b1eab25ad0fcf6ull, 0x30b1eab25ad0fcf7ull, 0x30baefc5209fe4cbull, 0x30bddc7e975c5045ull, 0x30bddc7e975c5046ull, 0x30bed611bef07419ull, 0x30bfcfa4e68497ecull,
0x30bfcfa4e68497edull, 0x30c1eab25ad0fcf6ull, 0x30c1eab25ad0fcf7ull, 0x30c6a3c3bb6a4529ull, 0x30c743ae1a4075e3ull, 0x30c743ae1a4075e4ull, 0x30caefc5209fe4cbull, 0x30cddc7e975c5045ull,
0x30cddc7e975c5046ull, 0x30cfcfa4e68497ecull, 0x30cfcfa4e68497edull, 0x30d6a3c3bb6a4529ull, 0x30d85f5edd777fa7ull, 0x30d85f5edd777fa8ull, 0x30daefc5209fe4cbull, 0x30dddc7e975c5045ull,
0x30dddc7e975c5046ull, 0x30e2eba0b6e3b906ull, 0x30e2eba0b6e3b907ull, 0x30e497303a88b96dull, 0x30e6a3c3bb6a4529ull, 0x30e8c9c46e0514faull, 0x30eaefc5209fe4cbull, 0x30eddc7e975c5045ull,
0x30eddc7e975c5046ull, 0x30f497303a88b96dull, 0x30f6a3c3bb6a4529ull, 0x30f7b6c414b7ad11ull, 0x30f7b6c414b7ad12ull, 0x30faefc5209fe4cbull, 0x30fda9a433e9c81bull, 0x30fda9a433e9c81cull,
0x30fddc7e975c5045ull, 0x30fddc7e975c5046ull, 0x31005b3a73bb53e3ull, 0x310590c3621cdd40ull, 0x310590c3621cdd41ull, 0x3106a3c3bb6a4529ull, 0x310aefc5209fe4cbull, 0x310cd634d6eb8a67ull,
0x310cd634d6eb8a68ull, 0x310fe718d6cf30e5ull, 0x31105b3a73bb53e3ull, 0x31118452f93667d3ull, 0x3114140b5a50567eull, 0x311590c3621cdd40ull, 0x311590c3621cdd41ull, 0x311cd634d6eb8a67ull,
0x311cd634d6eb8a68ull, 0x311d94e7cbd90905ull, 0x31218452f93667d3ull, 0x3124140b5a50567eull, 0x31243e320c804b23ull, 0x31243e320c804b24ull, 0x312cd634d6eb8a67ull, 0x312cd634d6eb8a68ull,
0x312e52ecdeb8112aull, 0x31318452f93667d3ull, 0x3134140b5a50567eull, 0x3137d132005774c8ull, 0x3137eb9febf73c7eull, 0x3137eb9febf73c7full, 0x313d005b891b7f0dull, 0x31418452f93667d3ull,
0x3144d2be4f3dd51bull, 0x3144d2be4f3dd51cull, 0x3146f8111fca2e74ull, 0x314742574128f370ull, 0x3149190e30e46c1dull, 0x3149190e30e46c1eull, 0x3150ed9bd6bfd003ull, 0x3150ed9bd6bfd004ull,
0x31513a0cd7d7a2d7ull, 0x31518452f93667d3ull, 0x3159190e30e46c1dull, 0x3159190e30e46c1eull, 0x315a90c2973060b8ull, 0x315a90c2973060b9ull, 0x315d257e99cae18bull, 0x31613a0cd7d7a2d7ull,
0x31618452f93667d3ull, 0x3165035503d21e10ull, 0x3165035503d21e11ull, 0x316754e8c980a4afull, 0x3169190e30e46c1dull, 0x3169190e30e46c1eull, 0x316d6fc4bb29a687ull, 0x31718452f93667d3ull,
0x3171f3bc2b448f4dull, 0x317475e6a5875ee0ull, 0x317475e6a5875ee1ull, 0x317754e8c980a4afull, 0x317cb61567bcba11ull, 0x317d2ec75df6ba2aull, 0x317d2ec75df6ba2bull, 0x3181f3bc2b448f4dull,
0x3182f8786d48f70aull, 0x318475e6a5875ee0ull, 0x318475e6a5875ee1ull, 0x318754e8c980a4afull, 0x318d2ec75df6ba2aull, 0x318d2ec75df6ba2bull, 0x3192f8786d48f70aull, 0x3194a4527a6299feull,
0x319754e8c980a4afull, 0x319bbaa1e9e42af3ull, 0x319bbaa1e9e42af4ull, 0x319d2ec75df6ba2aull, 0x319d2ec75df6ba2bull, 0x31a2dbd7538cb6e0ull, 0x31a2dbd7538cb6e1ull, 0x31a3b28b27523ea5ull,
0x31a3b28b27523ea6ull, 0x31a5fc9da1f19f56ull, 0x31a5fc9da1f19f57ull, 0x31a754e8c980a4afull, 0x31aa057f189eaf60ull, 0x31abbaa1e9e42af3ull, 0x31abbaa1e9e42af4ull, 0x31b34c0752d394a5ull,
0x31b34c0752d394a6ull, 0x31b3b28b27523ea5ull, 0x31b3b28b27523ea6ull, 0x31b754e8c980a4afull, 0x31b7b696889b34ccull, 0x31b7b696889b34cdull, 0x31ba057f189eaf60ull, 0x31bc7dfd68194b2eull,
0x31bc7dfd68194b2full, 0x31c3841f52770388ull, 0x31c5b490d7f6b9b9ull, 0x31c754e8c980a4afull, 0x31c7b696889b34ccull, 0x31c7b696889b34cdull, 0x31c9cd6718fb407dull, 0x31c9cd6718fb407eull,
0x31cfbead4b2d211aull, 0x31cfbead4b2d211bull, 0x31d0436f6f632d9cull, 0x31d5b490d7f6b9b9ull, 0x31d7b696889b34ccull, 0x31d7b696889b34cdull, 0x31dd0e16fc0f1669ull, 0x31dd0e16fc0f166aull,
0x31dfbead4b2d211aull, 0x31dfbead4b2d211bull, 0x31e00b576fbfbeb9ull, 0x31e00b576fbfbebaull, 0x31e0436f6f632d9cull, 0x31e5b490d7f6b9b9ull, 0x31eeae6eed99015full, 0x31eeae6eed990160ull,
0x31efbead4b2d211aull, 0x31efbead4b2d211bull, 0x31f0436f6f632d9cull, 0x31f54c7adb943efbull, 0x31f54c7adb943efcull, 0x31f5b490d7f6b9b9ull, 0x31f82d0f27715587ull, 0x31f82d0f27715588ull,
0x31ff7e9ae65df6daull, 0x31ff7e9ae65df6dbull, 0x3200436f6f632d9cull, 0x3205b490d7f6b9b9ull, 0x320aedaa0fc32ac8ull, 0x320aedaa0fc32ac9ull, 0x320c3deb034a20eeull, 0x320c3deb034a20efull,
0x320f1684e9fb7c1dull, 0x32100b576fbfbeb9ull, 0x32100b576fbfbebaull, 0x3210436f6f632d9cull, 0x3214544b4b3bf903ull, 0x321aedaa0fc32ac8ull, 0x321aedaa0fc32ac9ull, 0x321b55c00c25a586ull,
0x321e4658f13686a2ull, 0x3224544b4b3bf903ull, 0x32294d521e393fd2ull, 0x32294d521e393fd3ull, 0x322a357d155dbb3bull, 0x322aedaa0fc32ac8ull, 0x322aedaa0fc32ac9ull, 0x322b55c00c25a586ull,
0x3234544b4b3bf903ull, 0x32348050091c3c24ull, 0x32348050091c3c25ull, 0x323744e4304cda1full, 0x32394d521e393fd2ull, 0x32394d521e393fd3ull, 0x323aedaa0fc32ac8ull, 0x323aedaa0fc32ac9ull,
0x323b55c00c25a586ull, 0x32448050091c3c24ull, 0x32448050091c3c25ull, 0x3245cc97bdc46991ull, 0x324744e4304cda1full, 0x32489d3f26b8334cull, 0x32489d3f26b8334dull, 0x32494d521e393fd2ull,
0x32494d521e393fd3ull, 0x324a357d155dbb3bull, 0x32548050091c3c24ull, 0x32548050091c3c25ull, 0x325688bdf708a1d8ull, 0x325744e4304cda1full, 0x325a357d155dbb3bull, 0x325dbc4116b4275dull,
0x325ff6bd63626612ull, 0x325ff6bd63626613ull, 0x32648050091c3c24ull, 0x32648050091c3c25ull, 0x326688bdf708a1d8ull, 0x3266e6d113aabdfbull, 0x3266e6d113aabdfcull, 0x326a357d155dbb3bull,
0x326c8900916ce671ull, 0x326c8900916ce672ull, 0x3270e68e79467962ull, 0x327688bdf708a1d8ull, 0x32785f1d86332e89ull, 0x32785f1d86332e8aull, 0x327884a84d44914bull, 0x327c8900916ce671ull,
0x327c8900916ce672ull, 0x327f5a18504dfaacull, 0x327f5a18504dfaadull, 0x3280e68e79467962ull, 0x3282dbfed8b38875ull, 0x328c0bdca48847ecull, 0x328c0bdca48847edull, 0x328c8900916ce671ull,
0x328c8900916ce672ull, 0x328e014d03f556ffull, 0x328e014d03f55700ull, 0x328f5a18504dfaacull, 0x328f5a18504dfaadull, 0x3290e68e79467962ull, 0x3292bcee08710613ull, 0x3292bcee08710614ull,
0x329b3035451442c4ull, 0x329b3035451442c5ull, 0x329c2aed74caca4eull, 0x329df18c70dd708full, 0x329f5a18504dfaacull, 0x329f5a18504dfaadull, 0x32a0e68e79467962ull, 0x32a2bcee08710613ull,
0x32a2bcee08710614ull, 0x32a9c7a965a3b8a7ull, 0x32ac2aed74caca4eull, 0x32adf18c70dd708full, 0x32af5a18504dfaacull, 0x32af5a18504dfaadull, 0x32b0e68e79467962ull, 0x32b2bcee08710613ull,
0x32b2bcee08710614ull, 0x32b52032179817baull, 0x32b52032179817bbull, 0x32b9c7a965a3b8a7ull, 0x32bc690f154fcf11ull, 0x32bf32ef0b88dfd3ull, 0x32c078bac98c76ceull, 0x32c0e68e79467962ull,
0x32c2bcee08710613ull, 0x32c2bcee08710614ull, 0x32c52032179817baull, 0x32c52032179817bbull, 0x32caf94b6d37417aull, 0x32caf94b6d37417bull, 0x32cf177a1f9a5f2eull, 0x32d078bac98c76ceull,
0x32d25cd4ceae43d2ull, 0x32d3c560ae1ecdefull, 0x32d3c560ae1ecdf0ull, 0x32d52032179817baull, 0x32d52032179817bbull, 0x32daf94b6d37417aull, 0x32daf94b6d37417bull, 0x32df177a1f9a5f2eull,
0x32e078bac98c76ceull, 0x32e696786cffe22aull, 0x32e696786cffe22bull, 0x32eaf94b6d37417aull, 0x32eaf94b6d37417bull, 0x32ec690f154fcf11ull, 0x32ef177a1f9a5f2eull, 0x32f3a9ebc2304d4aull,
0x32f3a9ebc2304d4bull, 0x32f496e97bef9481ull, 0x32f496e97bef9482ull, 0x32f7519b97b3c762ull, 0x32f7519b97b3c763ull, 0x32faf94b6d37417aull, 0x32faf94b6d37417bull, 0x32fe5c56f4e679f6ull,
0x32ff177a1f9a5f2eull, 0x3306f40a0259d4c6ull, 0x3306f40a0259d4c7ull, 0x3307519b97b3c762ull, 0x3307519b97b3c763ull, 0x3307c81a74936afeull, 0x330af94b6d37417aull, 0x330af94b6d37417bull,
0x330b6fca4a16e516ull, 0x330e5c56f4e679f6ull, 0x3316c54137acdb78ull, 0x3316c54137acdb79ull, 0x3317519b97b3c762ull, 0x3317519b97b3c763ull, 0x3317c81a74936afeull, 0x331af94b6d37417aull,
0x331af94b6d37417bull, 0x331d43a234d8a222ull, 0x331e8b1fbf937344ull, 0x3321d613d76e903eull, 0x3321d613d76e903full, 0x3327519b97b3c762ull, 0x3327519b97b3c763ull, 0x332af94b6d37417aull,
0x332af94b6d37417bull, 0x332d49c5bd957384ull, 0x332e2a7c65db17f7ull, 0x332e2d8e2a3980a8ull, 0x333075a9052e0e1dull, 0x333667afa252e8dcull, 0x333667afa252e8ddull, 0x3336dca59d03581full,
0x3336dca59d035820ull, 0x333dba2111b845bdull, 0x333dba2111b845beull, 0x333e2a7c65db17f7ull, 0x333e2d8e2a3980a8ull, 0x334667afa252e8dcull, 0x334667afa252e8ddull, 0x3346dca59d03581full,
0x3346dca59d035820ull, 0x334e2a7c65db17f7ull, 0x334e68092791b849ull, 0x334e68092791b84aull, 0x334ea28424e9efebull, 0x3352be76eaa03a6cull, 0x335667afa252e8dcull, 0x335667afa252e8ddull,
0x335748664a988d4full, 0x335748664a988d50ull, 0x335cd96a6972a14aull, 0x335cd96a6972a14bull, 0x335ea28424e9efebull, 0x3362dc78da63f069ull, 0x336667afa252e8dcull, 0x336667afa252e8ddull,
0x336748664a988d4full, 0x336748664a988d50ull, 0x336a10e85a05974dull, 0x336ea28424e9efebull, 0x336fc6eb17a30612ull, 0x336fc6eb17a30613ull, 0x3372dc78da63f069ull, 0x3374cb40f08afac1ull,
0x337667afa252e8dcull, 0x337667afa252e8ddull, 0x3378bf7e7fa6f02aull, 0x337a10e85a05974dull, 0x337b174d5cfaf777ull, 0x337b174d5cfaf778ull, 0x33816c05765f01e5ull, 0x33816c05765f01e6ull,
0x338667afa252e8dcull, 0x338667afa252e8ddull, 0x33876e14a5484907ull, 0x3388bf7e7fa6f02aull, 0x338a10e85a05974dull, 0x338f568fc38033d9ull, 0x3392286d3bcdac7bull, 0x339667afa252e8dcull,
0x339667afa252e8ddull, 0x3398bf7e7fa6f02aull, 0x339a10e85a05974dull, 0x339f568fc38033d9ull, 0x33a037d002692cd2ull, 0x33a28f9edfbd341full, 0x33a28f9edfbd3420ull, 0x33a8bf7e7fa6f02aull,
0x33a968336cd643bbull, 0x33a968336cd643bcull, 0x33af568fc38033d9ull, 0x33b28f9edfbd341full, 0x33b28f9edfbd3420ull, 0x33b33853ccec87b1ull, 0x33b47ba741080e7eull, 0x33b8bf7e7fa6f02aull,
0x33bc0b0721939201ull, 0x33bc0b0721939202ull, 0x33c079ab299f2935ull, 0x33c079ab299f2936ull, 0x33c28f9edfbd341full, 0x33c28f9edfbd3420ull, 0x33c5db2781a9d5f7ull, 0x33c5fbe92649bbedull,
0x33c5fbe92649bbeeull, 0x33c8bf7e7fa6f02aull, 0x33d079ab299f2935ull, 0x33d079ab299f2936ull, 0x33d11d7360bea706ull, 0x33d28f9edfbd341full, 0x33d28f9edfbd3420ull, 0x33d445c403037806ull,
0x33d445c403037807ull, 0x33e184a504ae2eaaull, 0x33e184a504ae2eabull, 0x33e28f9edfbd341full, 0x33e28f9edfbd3420ull, 0x33e36ab171605613ull, 0x33e4ee78f032cb98ull, 0x33f0a71c180321d6ull,
0x33f0a71c180321d7ull, 0x33f20a21f235b165ull, 0x33f28f9edfbd341full, 0x33f28f9edfbd3420ull, 0x33fde4644481a6bfull, 0x33fde4644481a6c0ull, 0x33feef5e1f90ac34ull, 0x33feef5e1f90ac35ull,
0x34019b5d7be02afbull, 0x34028f9edfbd341full, 0x34028f9edfbd3420ull, 0x340564d038ee50c7ull, 0x340564d038ee50c8ull, 0x340e69e13209297aull, 0x340eef5e1f90ac34ull, 0x340eef5e1f90ac35ull,
0x34128f9edfbd341full, 0x34128f9edfbd3420ull, 0x3413fa378c55c273ull, 0x3413fa378c55c274ull, 0x341b5d4d9dad499dull, 0x341e69e13209297aull, 0x341eef5e1f90ac34ull, 0x341eef5e1f90ac35ull,
0x34202a20c368d495ull, 0x34202a20c368d496ull, 0x34228f9edfbd341full, 0x34228f9edfbd3420ull, 0x342344eb36097b49ull, 0x342344eb36097b4aull, 0x3426cf68e586df1bull, 0x3426cf68e586df1cull,
0x342da04468fa74daull, 0x342da04468fa74dbull, 0x342eef5e1f90ac34ull, 0x342eef5e1f90ac35ull, 0x34302a20c368d495ull, 0x34302a20c368d496ull, 0x34328f9edfbd341full, 0x34328f9edfbd3420ull,
0x3432ea450ae357b4ull, 0x3432ea450ae357b5ull, 0x343344eb36097b49ull, 0x343344eb36097b4aull, 0x343eef5e1f90ac34ull, 0x343eef5e1f90ac35ull, 0x343fc27e5c31531aull, 0x343fc27e5c31531bull,
0x34428f9edfbd341full, 0x34428f9edfbd3420ull, 0x344344eb36097b49ull, 0x344344eb36097b4aull, 0x3443ca682390fe04ull, 0x34491a24aacd13bfull, 0x344eef5e1f90ac34ull, 0x344eef5e1f90ac35ull,
0x344f1cb13523bdffull, 0x34502a20c368d495ull, 0x34502a20c368d496ull, 0x345344eb36097b49ull, 0x345344eb36097b4aull, 0x34591a24aacd13bfull, 0x345d2a1f47d1fa4bull, 0x345d2a1f47d1fa4cull,
0x345ea51b257d10a4ull, 0x345ea51b257d10a5ull, 0x345eef5e1f90ac34ull, 0x345eef5e1f90ac35ull, 0x34602a20c368d495ull, 0x34602a20c368d496ull, 0x346344eb36097b49ull, 0x346344eb36097b4aull,
0x3465be383a7b9b0aull, 0x346837853eedbacaull, 0x346837853eedbacbull, 0x346eef5e1f90ac34ull, 0x346eef5e1f90ac35ull, 0x346f39efdf639b8aull, 0x346f39efdf639b8bull, 0x3475be383a7b9b0aull,
0x3477b20851663810ull, 0x347837853eedbacaull, 0x347837853eedbacbull, 0x347eef5e1f90ac34ull, 0x347eef5e1f90ac35ull, 0x34804eaa2bdcb447ull, 0x34804eaa2bdcb448ull, 0x3485be383a7b9b0aull,
0x3487b20851663810ull, 0x348837853eedbacaull, 0x348837853eedbacbull, 0x348eef5e1f90ac34ull, 0x348eef5e1f90ac35ull, 0x34904eaa2bdcb447ull, 0x34904eaa2bdcb448ull, 0x3496a70e7657329bull,
0x349837853eedbacaull, 0x349837853eedbacbull, 0x3499427f19fcc03full, 0x3499427f19fcc040ull, 0x349da7134d8ca18dull, 0x349e2407534748ceull, 0x349e2407534748cfull, 0x34a04eaa2bdcb447ull,
0x34a04eaa2bdcb448ull, 0x34a24b032a942cc6ull, 0x34a24b032a942cc7ull, 0x34a837853eedbacaull, 0x34a837853eedbacbull, 0x34ab2dc6491a81ccull, 0x34ab2dc6491a81cdull, 0x34ad9e8a65bfc614ull,
0x34af2233d2a3050eull, 0x34b04eaa2bdcb447ull, 0x34b04eaa2bdcb448ull, 0x34b24b032a942cc6ull, 0x34b24b032a942cc7ull, 0x34b9b2a5c4041e4bull, 0x34b9b2a5c4041e4cull, 0x34bb2dc6491a81ccull,
0x34bb2dc6491a81cdull, 0x34bd9e8a65bfc614ull, 0x34bfdfc4152e36ceull, 0x34bfdfc4152e36cfull, 0x34c636e7cc4fd48full, 0x34c6a70e7657329bull, 0x34c9b2a5c4041e4bull, 0x34c9b2a5c4041e4cull,
0x34ca7036068f500cull, 0x34cb2dc6491a81ccull, 0x34cb2dc6491a81cdull, 0x34ccbe3d11b109fcull, 0x34d6a70e7657329bull, 0x34d9b2a5c4041e4bull, 0x34d9b2a5c4041e4cull, 0x34da7036068f500cull,
0x34db2dc6491a81ccull, 0x34db2dc6491a81cdull, 0x34dd667710bc170eull, 0x34e283167f97dbccull, 0x34e283167f97dbcdull, 0x34e3d42884eb7c09ull, 0x34e9b2a5c4041e4bull, 0x34e9b2a5c4041e4cull,
0x34eb2dc6491a81ccull, 0x34eb2dc6491a81cdull, 0x34ed667710bc170eull, 0x34f58eadcd44c77dull, 0x34f60cd94c8d114aull, 0x34f60cd94c8d114bull, 0x34f61ade21cdfd0cull, 0x34f9b2a5c4041e4bull,
0x34f9b2a5c4041e4cull, 0x34fbe3671628f487ull, 0x34fbe3671628f488ull, 0x35008621c4199207ull, 0x35008621c4199208ull, 0x3501f6e62b0ea63dull, 0x3501f6e62b0ea63eull, 0x35061ade21cdfd0cull,
0x3507dfbf884897cbull, 0x3509b2a5c4041e4bull, 0x3509b2a5c4041e4cull, 0x350f7b2eb85f15c7ull, 0x35108621c4199207ull, 0x35108621c4199208ull, 0x3511f6e62b0ea63dull, 0x3511f6e62b0ea63eull,
0x3519b2a5c4041e4bull, 0x3519b2a5c4041e4cull, 0x351c7601883dddedull, 0x351e1cb5e5080fe1ull, 0x351e1cb5e5080fe2ull, 0x351f395d4c779d8eull, 0x351f395d4c779d8full, 0x3521f6e62b0ea63dull,
0x3521f6e62b0ea63eull, 0x3529b2a5c4041e4bull, 0x3529b2a5c4041e4cull, 0x352c7601883dddedull, 0x352ec122883880feull, 0x352f395d4c779d8eull, 0x352f395d4c779d8full, 0x353168927756df67ull,
0x3531f6e62b0ea63dull, 0x3531f6e62b0ea63eull, 0x3539b2a5c4041e4bull, 0x3539b2a5c4041e4cull, 0x353c7601883dddedull, 0x353f395d4c779d8eull, 0x353f395d4c779d8full, 0x354168927756df67ull,
0x3543f6d3441186a1ull, 0x35489821bbc321e6ull, 0x354c7601883dddedull, 0x354f395d4c779d8eull, 0x354f395d4c779d8full, 0x3553f6d3441186a1ull, 0x3558366a6627b247ull, 0x35589821bbc321e6ull,
0x355c7601883dddedull, 0x355f395d4c779d8eull, 0x355f395d4c779d8full, 0x356272194cd2596cull, 0x356272194cd2596dull, 0x3563f6d3441186a1ull, 0x3564da18f5a4d957ull, 0x3564da18f5a4d958ull,
0x35689821bbc321e6ull, 0x356f395d4c779d8eull, 0x356f395d4c779d8full, 0x357272194cd2596cull, 0x357272194cd2596dull, 0x3572afb2ddb43304ull, 0x3573f6d3441186a1ull, 0x357b00216495a1d1ull,
0x357e95cd1948f3c0ull, 0x357f395d4c779d8eull, 0x357f395d4c779d8full, 0x358272194cd2596cull, 0x358272194cd2596dull, 0x3582afb2ddb43304ull, 0x358946502ead3d30ull, 0x358946502ead3d31ull,
0x358e95cd1948f3c0ull, 0x358f395d4c779d8eull, 0x358f395d4c779d8full, 0x358ff229ff1d2a55ull, 0x359272194cd2596cull, 0x359272194cd2596dull, 0x3592afb2ddb43304ull, 0x35960e18ca0e194dull,
0x359c4525dd70261dull, 0x359c4525dd70261eull, 0x359ebe2a2ab3ea5full, 0x359ebe2a2ab3ea60ull, 0x359f395d4c779d8eull, 0x359f395d4c779d8full, 0x35a059bc81fdaca3ull, 0x35a059bc81fdaca4ull,
0x35a135972630774bull, 0x35a135972630774cull, 0x35a26114a8611515ull, 0x35a26114a8611516ull, 0x35a75b9f95213fc5ull, 0x35aebe2a2ab3ea5full, 0x35aebe2a2ab3ea60ull, 0x35af395d4c779d8eull,
0x35af395d4c779d8full, 0x35b135972630774bull, 0x35b135972630774cull, 0x35b31da02fcd9858ull, 0x35b573968b841eb8ull, 0x35b573968b841eb9ull, 0x35b75b9f95213fc5ull, 0x35bce366f0c1172eull,
0x35bebe2a2ab3ea5full, 0x35bebe2a2ab3ea60ull, 0x35c135972630774bull, 0x35c135972630774cull, 0x35c31da02fcd9858ull, 0x35c7f9e0a87230d5ull, 0x35c7f9e0a87230d6ull, 0x35ca1f8342f12b79ull,
0x35ca1f8342f12b7aull, 0x35cce366f0c1172eull, 0x35cf0266a36aeae4ull, 0x35cf0266a36aeae5ull, 0x35d09fd865182866ull, 0x35d09fd865182867ull, 0x35d135972630774bull, 0x35d135972630774cull,
0x35d497bbe7515410ull, 0x35d497bbe7515411ull, 0x35d5aa8d3490d162ull, 0x35d5aa8d3490d163ull, 0x35da1f8342f12b79ull, 0x35da1f8342f12b7aull, 0x35e0ac2e7f90b8a2ull, 0x35e0ac2e7f90b8a3ull,
0x35e0eab7c5a44fd9ull, 0x35e135972630774bull, 0x35e135972630774cull, 0x35e2e6a986c0e5aeull, 0x35e7e5083bc0fe6eull, 0x35f135972630774bull, 0x35f135972630774cull, 0x35f2e6a986c0e5aeull,
0x35f7e5083bc0fe6eull, 0x35f9aaf309029f38ull, 0x35faa8ebe990ea22ull, 0x35faa8ebe990ea23ull, 0x35fc9eb29d7137d9ull, 0x35fc9eb29d7137daull, 0x360135972630774bull, 0x360135972630774cull,
0x3601807686bc9ebeull, 0x3602e6a986c0e5aeull, 0x3608ca54e75e28e0ull, 0x3608ca54e75e28e1ull, 0x360e0b10aab1c6e7ull, 0x360e0b10aab1c6e8ull, 0x360f62964b41238eull, 0x361135972630774bull,
0x361135972630774cull, 0x3611807686bc9ebeull, 0x3612e6a986c0e5aeull, 0x3617a053e8711f19ull, 0x3617a053e8711f1aull, 0x361d2a72890d5090ull, 0x361dde4a4ab13e09ull, 0x361dde4a4ab13e0aull,
0x36214bfa5630bbbaull, 0x36214bfa5630bbbbull, 0x3621807686bc9ebeull, 0x36246af58750cb32ull, 0x36246af58750cb33ull, 0x3627a053e8711f19ull, 0x3627a053e8711f1aull, 0x362bb59229941f56ull,
0x362bb59229941f57ull, 0x362dde4a4ab13e09ull, 0x362dde4a4ab13e0aull, 0x36300ad7e5a1a383ull, 0x3631807686bc9ebeull, 0x36346af58750cb32ull, 0x36346af58750cb33ull, 0x363605a4b7e0f526ull,
0x3638c8d8641a94ddull, 0x3638c8d8641a94deull, 0x3641807686bc9ebeull, 0x36446af58750cb32ull, 0x36446af58750cb33ull, 0x364605a4b7e0f526ull, 0x364bb4d3e7f25555ull, 0x364c70617a219cf4ull,
0x364f6dc7e34145c5ull, 0x364f6dc7e34145c6ull, 0x3650843b89e8b7dcull, 0x3650843b89e8b7ddull, 0x3651807686bc9ebeull, 0x36546af58750cb32ull, 0x36546af58750cb33ull, 0x365c70617a219cf4ull,
0x365f5ae07ab5c968ull, 0x365f5ae07ab5c969ull, 0x365f6dc7e34145c5ull, 0x365f6dc7e34145c6ull, 0x3660843b89e8b7dcull, 0x3660843b89e8b7ddull, 0x36646af58750cb32ull, 0x36646af58750cb33ull,
0x36663d9cafe1a03bull, 0x36663d9cafe1a03cull, 0x366a9dba5190c7ebull, 0x366b870de5d9326full, 0x366b870de5d93270ull, 0x366d7a6ae48d3c1aull, 0x366d7a6ae48d3c1bull, 0x36763d9cafe1a03bull,
0x36763d9cafe1a03cull, 0x3677f901b694fed1ull, 0x367a9dba5190c7ebull, 0x367b870de5d9326full, 0x367b870de5d93270ull, 0x367f5ae07ab5c968ull, 0x367f5ae07ab5c969ull, 0x3687f901b694fed1ull,
0x368a9dba5190c7ebull, 0x368b870de5d9326full, 0x368b870de5d93270ull, 0x368f151a151d660eull, 0x368f5ae07ab5c968ull, 0x368f5ae07ab5c969ull, 0x369654ded1bf16afull, 0x3697f901b694fed1ull,
0x369a9dba5190c7ebull, 0x369cd96a335716fcull, 0x369cd96a335716fdull, 0x369f151a151d660eull, 0x369fbe483bdc5854ull, 0x369fbe483bdc5855ull, 0x36a20c0351ed6573ull, 0x36a74fd38fd60c8aull,
0x36a74fd38fd60c8bull, 0x36a8794c91a7ef4dull, 0x36aa9dba5190c7ebull, 0x36acd96a335716fcull, 0x36acd96a335716fdull, 0x36ae724b280f28e5ull, 0x36ae724b280f28e6ull, 0x36b20c0351ed6573ull,
0x36b74fd38fd60c8aull, 0x36b74fd38fd60c8bull, 0x36b98b83719c5b9cull, 0x36ba149ee19691c3ull, 0x36ba149ee19691c4ull, 0x36ba9dba5190c7ebull, 0x36bcc2281179a089ull, 0x36c0ecf2b36ef5a3ull,
0x36c0ecf2b36ef5a4ull, 0x36c76715b1b382feull, 0x36c8b23938b64f27ull, 0x36c98b83719c5b9cull, 0x36ca149ee19691c3ull, 0x36ca149ee19691c4ull, 0x36ccc2281179a089ull, 0x36d328a2953544b5ull,
0x36d76715b1b382feull, 0x36d91738c8490b5aull, 0x36d91738c8490b5bull, 0x36da149ee19691c3ull, 0x36da149ee19691c4ull, 0x36e76715b1b382feull, 0x36e91738c8490b5aull, 0x36e91738c8490b5bull,
0x36ea149ee19691c3ull, 0x36ea149ee19691c4ull, 0x36ed460f4fca1d37ull, 0x36efee644e037283ull, 0x36f18d504546a23eull, 0x36f18d504546a23full, 0x36fa149ee19691c3ull, 0x36fa149ee19691c4ull,
0x36fd460f4fca1d37ull, 0x36fef0fe34b5ec1aull, 0x36ffee644e037283ull, 0x37018d504546a23eull, 0x37018d504546a23full, 0x37045bd344bdd02full, 0x37045bd344bdd030ull, 0x370505e8844c2582ull,
0x370505e8844c2583ull, 0x370a149ee19691c3ull, 0x370a149ee19691c4ull, 0x370b2c09f334b78cull, 0x370d460f4fca1d37ull, 0x37118d504546a23eull, 0x37118d504546a23full, 0x37178d43b2f15ba3ull,
0x371a149ee19691c3ull, 0x371a149ee19691c4ull, 0x371d40db1e2063bdull, 0x371d40db1e2063beull, 0x371ef0fe34b5ec1aull, 0x371f23553ee0fe04ull, 0x371f23553ee0fe05ull, 0x37227e8d55a6ef62ull,
0x372734bea7887113ull, 0x372734bea7887114ull, 0x37278d43b2f15ba3ull, 0x372a149ee19691c3ull, 0x372a149ee19691c4ull, 0x372d40db1e2063bdull, 0x372d40db1e2063beull, 0x372f23553ee0fe04ull,
0x372f23553ee0fe05ull, 0x37327e8d55a6ef62ull, 0x37378d43b2f15ba3ull, 0x373a3acce2d46a68ull, 0x373a3acce2d46a69ull, 0x373eb44237004d9cull, 0x373f23553ee0fe04ull, 0x373f23553ee0fe05ull,
0x37427e8d55a6ef62ull, 0x374734bea7887113ull, 0x374734bea7887114ull, 0x374a3acce2d46a68ull, 0x374a3acce2d46a69ull, 0x374e96c642d6d4b6ull, 0x374f23553ee0fe04ull, 0x374f23553ee0fe05ull,
0x37527e8d55a6ef62ull, 0x3756811f9f8f18c7ull, 0x375734bea7887113ull, 0x375734bea7887114ull, 0x375a3acce2d46a68ull, 0x375a3acce2d46a69ull, 0x375b20c2f4f8d49full, 0x375b20c2f4f8d4a0ull,
0x375ec3e23bc66068ull, 0x37627e8d55a6ef62ull, 0x3766811f9f8f18c7ull, 0x37671e30ab10ab3aull, 0x37671e30ab10ab3bull, 0x376b20c2f4f8d49full, 0x376b20c2f4f8d4a0ull, 0x376d4c221c5c46aaull,
0x376eda70383e2641ull, 0x377008f17d26a846ull, 0x37727e8d55a6ef62ull, 0x37771e30ab10ab3aull, 0x37771e30ab10ab3bull, 0x377c84fb0e6b56deull, 0x377c84fb0e6b56dfull, 0x377eda70383e2641ull,
0x377ffb16ce54aab4ull, 0x377ffb16ce54aab5ull, 0x378008f17d26a846ull, 0x37827e8d55a6ef62ull, 0x378345b46397df2dull, 0x378345b46397df2eull, 0x37871e30ab10ab3aull, 0x37871e30ab10ab3bull,
0x378e71393227bce5ull, 0x378ffb16ce54aab4ull, 0x378ffb16ce54aab5ull, 0x37933a6d655bfc41ull, 0x379345b46397df2dull, 0x379345b46397df2eull, 0x3793d83fee7d9a4bull, 0x379531f287544534ull,
0x37971e30ab10ab3aull, 0x37971e30ab10ab3bull, 0x379e71393227bce5ull, 0x37a345b46397df2dull, 0x37a345b46397df2eull, 0x37a531f287544534ull, 0x37a71e30ab10ab3aull, 0x37a71e30ab10ab3bull,
0x37a924bc9052ab98ull, 0x37ace2eb1645dd4eull, 0x37ae71393227bce5ull, 0x37b008f17d26a846ull, 0x37b345b46397df2dull, 0x37b345b46397df2eull, 0x37b531f287544534ull, 0x37bc6aad4ce5bc87ull,
0x37bc6aad4ce5bc88ull, 0x37bce2eb1645dd4eull, 0x37bfba2f0c9c19e5ull, 0x37c28bb43669bc8dull, 0x37c28bb43669bc8eull, 0x37c5aa3050b465faull, 0x37c5aa3050b465fbull, 0x37c80eac3dd0ecc7ull,
0x37c80eac3dd0ecc8ull, 0x37c819f33c0ccfb4ull, 0x37ca7e6f29295681ull, 0x37cf10eb9dd0452eull, 0x37d28bb43669bc8dull, 0x37d28bb43669bc8eull, 0x37d477f25a262294ull, 0x37d80eac3dd0ecc7ull,
0x37d80eac3dd0ecc8ull, 0x37d819f33c0ccfb4ull, 0x37da7e6f29295681ull, 0x37df6debb467567eull, 0x37e213766d099bc7ull, 0x37e77b30c1a7bc8aull, 0x37e77b30c1a7bc8bull, 0x37e80eac3dd0ecc7ull,
0x37e80eac3dd0ecc8ull, 0x37e8470f34fc5b66ull, 0x37ea7e6f29295681ull, 0x37ee15290cd420b4ull, 0x37ee15290cd420b5ull, 0x37f213766d099bc7ull, 0x37f25d342b1e33e5ull, 0x37f25d342b1e33e6ull,
0x37f77b30c1a7bc8aull, 0x37f77b30c1a7bc8bull, 0x37f80eac3dd0ecc7ull, 0x37f80eac3dd0ecc8ull, 0x37fe15290cd420b4ull, 0x37fe15290cd420b5ull, 0x37fe20700b1003a1ull, 0x38025d342b1e33e5ull,
0x38025d342b1e33e6ull, 0x3804ec327662f838ull, 0x38080eac3dd0ecc7ull, 0x38080eac3dd0ecc8ull, 0x380c992d5831452full, 0x380c992d58314530ull, 0x380e20700b1003a1ull, 0x380f9c6bbfb2df26ull,
0x3812354b67bd448cull, 0x3812354b67bd448dull, 0x38138f7221ac774cull, 0x381ac2f9b1af5246ull, 0x381ac2f9b1af5247ull, 0x381c992d5831452full, 0x381c992d58314530ull, 0x381e20700b1003a1ull,
0x381f9c6bbfb2df26ull, 0x3822354b67bd448cull, 0x3822354b67bd448dull, 0x38238f7221ac774cull, 0x3827b550cfc6275cull, 0x3827b550cfc6275dull, 0x3828d7f1165e3d76ull, 0x3828d7f1165e3d77ull,
0x382c8de659f56243ull, 0x382c992d5831452full, 0x382c992d58314530ull, 0x38338f7221ac774cull, 0x383458b6fa39c7fbull, 0x3837b550cfc6275cull, 0x3837b550cfc6275dull, 0x383a273f13fbb646ull,
0x383c8de659f56243ull, 0x383dbbcd9ec95b49ull, 0x383dbbcd9ec95b4aull, 0x38411d83dd76e862ull, 0x38411d83dd76e863ull, 0x384458b6fa39c7fbull, 0x3844faba79ea92ecull, 0x3844faba79ea92edull,
0x3848734eaa17951full, 0x384a273f13fbb646ull, 0x384dbbcd9ec95b49ull, 0x384dbbcd9ec95b4aull, 0x38506a5ebf773490ull, 0x3854faba79ea92ecull, 0x3854faba79ea92edull, 0x38566602d228ae8dull,
0x38576ca8be2021d6ull, 0x3858734eaa17951full, 0x385e58d3023b723full, 0x385e58d3023b7240ull, 0x38606a5ebf773490ull, 0x3864faba79ea92ecull, 0x3864faba79ea92edull, 0x38666602d228ae8dull,
0x38676ca8be2021d6ull, 0x386e58d3023b723full, 0x386e58d3023b7240ull, 0x38706a5ebf773490ull, 0x3874faba79ea92ecull, 0x3874faba79ea92edull, 0x3876e955c8246831ull, 0x3876e955c8246832ull,
0x38776ca8be2021d6ull, 0x387ad5e4a9729b62ull, 0x387f5f78ee32e588ull, 0x387f5f78ee32e589ull, 0x38806a5ebf773490ull, 0x3881917e8e981960ull, 0x3881917e8e981961ull, 0x388484f66f5501b4ull,
0x388b44e13e551864ull, 0x388b44e13e551865ull, 0x388cc47ff7ac70a7ull, 0x388f5f78ee32e588ull, 0x388f5f78ee32e589ull, 0x3891917e8e981960ull, 0x3891917e8e981961ull, 0x3891f457a16a617dull,
0x3891f457a16a617eull, 0x389cc47ff7ac70a7ull, 0x389d47d2eda82a4bull, 0x389d47d2eda82a4cull, 0x389dd5800c3fb89bull, 0x389ff3be8a6e51b4ull, 0x38a1917e8e981960ull, 0x38a1917e8e981961ull,
0x38abb033a44739c5ull, 0x38abbdda0bb4fd5eull, 0x38acc47ff7ac70a7ull, 0x38ad47d2eda82a4bull, 0x38ad47d2eda82a4cull, 0x38ae4e78d99f9d94ull, 0x38ae4e78d99f9d95ull, 0x38b40bfda1f51cbaull,
0x38b40bfda1f51cbbull, 0x38b5d50974bf314full, 0x38b5d50974bf3150ull, 0x38b9a6340b2a4221ull, 0x38bbbdda0bb4fd5eull, 0x38bd47d2eda82a4bull, 0x38bd47d2eda82a4cull, 0x38be4e78d99f9d94ull,
0x38be4e78d99f9d95ull, 0x38c06f8bd3c51ee5ull, 0x38c06f8bd3c51ee6ull, 0x38c40bfda1f51cbaull, 0x38c40bfda1f51cbbull, 0x38c4ce6388c7be06ull, 0x38c4ce6388c7be07ull, 0x38c5d50974bf314full,
0x38c5d50974bf3150ull, 0x38c98e6e3133adcdull, 0x38c98e6e3133adceull, 0x38ce4e78d99f9d94ull, 0x38ce4e78d99f9d95ull, 0x38d06f8bd3c51ee5ull, 0x38d06f8bd3c51ee6ull, 0x38d23dc4badd1dd0ull,
0x38d4ce6388c7be06ull, 0x38d4ce6388c7be07ull, 0x38d5d50974bf314full, 0x38d5d50974bf3150ull, 0x38d7b1bbd2f96f8eull, 0x38d7b1bbd2f96f8full, 0x38d98e6e3133adcdull, 0x38d98e6e3133adceull,
0x38e03ef25a107692ull, 0x38e03ef25a107693ull, 0x38e23dc4badd1dd0ull, 0x38e6c362a3dc506full, 0x38e7b1bbd2f96f8eull, 0x38e7b1bbd2f96f8full, 0x38e98e6e3133adcdull, 0x38e98e6e3133adceull,
0x38f23dc4badd1dd0ull, 0x38f4e6b045a21230ull, 0x38f98e6e3133adcdull, 0x38f98e6e3133adceull, 0x38fb746cf242410bull, 0x38fb746cf242410cull, 0x38fe1ddf5feaf541ull, 0x38fe1ddf5feaf542ull,
0x39023dc4badd1dd0ull, 0x3904e6b045a21230ull, 0x39098e6e3133adcdull, 0x39098e6e3133adceull, 0x390b746cf242410bull, 0x390b746cf242410cull, 0x390bd626c88f5187ull, 0x390bd626c88f5188ull,
0x39123dc4badd1dd0ull, 0x3914e6b045a21230ull, 0x39198e6e3133adcdull, 0x39198e6e3133adceull, 0x391ab24a7ce17faaull, 0x391ab24a7ce17fabull, 0x391dbc25899de4c5ull, 0x391dbc25899de4c6ull,
0x391ec81a429c3259ull, 0x391ec81a429c325aull, 0x392119e86f2f4bf3ull, 0x3926cd35e9946544ull, 0x39298e6e3133adcdull, 0x39298e6e3133adceull, 0x392a205c570a96bcull, 0x392b746cf242410bull,
0x392b746cf242410cull, 0x392c98493df012e8ull, 0x392c98493df012e9ull, 0x393087fa49586304ull, 0x393087fa49586305ull, 0x393119e86f2f4bf3ull, 0x39398e6e3133adcdull, 0x39398e6e3133adceull,
0x393a205c570a96bcull, 0x393b746cf242410bull, 0x393b746cf242410cull, 0x393c065b181929faull, 0x394087fa49586304ull, 0x394087fa49586305ull, 0x394119e86f2f4bf3ull, 0x394398454147f10dull,
0x39498e6e3133adcdull, 0x39498e6e3133adceull, 0x394b746cf242410bull, 0x394b746cf242410cull, 0x394faf042112c9deull, 0x394faf042112c9dfull, 0x395087fa49586304ull, 0x395087fa49586305ull,
0x395119e86f2f4bf3ull, 0x395b746cf242410bull, 0x395b746cf242410cull, 0x395c808363f97e95ull, 0x395d674b89b72624ull, 0x395d674b89b72625ull, 0x395f8497211f6a8eull, 0x39605439b6669e35ull,
0x39605439b6669e36ull, 0x396119e86f2f4bf3ull, 0x3964da57521f802bull, 0x396c808363f97e95ull, 0x396e60bad57198b1ull, 0x396f8497211f6a8eull, 0x39720a0427eb5901ull, 0x3977a37158d78feaull,
0x3977a37158d78febull, 0x3978355f7eae78d9ull, 0x3978ad6d5b0c7f60ull, 0x397c808363f97e95ull, 0x397e60bad57198b1ull, 0x3983fbd5879f1710ull, 0x3988355f7eae78d9ull, 0x3988ad6d5b0c7f60ull,
0x398a96f85f82fefaull, 0x398a96f85f82fefbull, 0x398e60bad57198b1ull, 0x3992821204495f88ull, 0x3995e66dc3d6bdb4ull, 0x3995e66dc3d6bdb5ull, 0x3998355f7eae78d9ull, 0x3998ad6d5b0c7f60ull,
0x399a96f85f82fefaull, 0x399a96f85f82fefbull, 0x399b4b0d2a1008c5ull, 0x39a2821204495f88ull, 0x39a8355f7eae78d9ull, 0x39a9c036545f40cfull, 0x39ac11c91a99dd8cull, 0x39ac11c91a99dd8dull,
0x39adaca60ae48ee6ull, 0x39adaca60ae48ee7ull, 0x39b0f73b2e989792ull, 0x39b2821204495f88ull, 0x39b2d0c018752dc8ull, 0x39b2d0c018752dc9ull, 0x39b8355f7eae78d9ull, 0x39b8facae986dcd4ull,
0x39bf377ce09556dcull, 0x39bf377ce09556ddull, 0x39c031cfc3c03397ull, 0x39c0f73b2e989792ull, 0x39c2d0c018752dc8ull, 0x39c2d0c018752dc9ull, 0x39c5e66dc3d6bdb4ull, 0x39c5e66dc3d6bdb5ull,
0x39ced8c8b1cf9f38ull, 0x39cf377ce09556dcull, 0x39cf377ce09556ddull, 0x39d031cfc3c03397ull, 0x39d5e66dc3d6bdb4ull, 0x39d5e66dc3d6bdb5ull, 0x39d72296855bb76aull, 0x39dd9c9ff04aa582ull,
0x39dd9c9ff04aa583ull, 0x39ded4c72b2924dfull, 0x39e031cfc3c03397ull, 0x39e3477d6f21c383ull, 0x39e5e66dc3d6bdb4ull, 0x39e5e66dc3d6bdb5ull, 0x39ed9c9ff04aa582ull, 0x39ed9c9ff04aa583ull,
0x39ee115c83a3fe10ull, 0x39ee115c83a3fe11ull, 0x39ee74123910300eull, 0x39f031cfc3c03397ull, 0x39f159f0e404c98full, 0x39f159f0e404c990ull, 0x39f3477d6f21c383ull, 0x39f5e66dc3d6bdb4ull,
0x39f5e66dc3d6bdb5ull, 0x39f9cb8aaab0e37aull, 0x39fd9c9ff04aa582ull, 0x39fd9c9ff04aa583ull, 0x3a0031cfc3c03397ull, 0x3a0159f0e404c98full, 0x3a0159f0e404c990ull, 0x3a03477d6f21c383ull,
0x3a0d43ee0b7ea563ull, 0x3a0d43ee0b7ea564ull, 0x3a0e3fb6395d3b4cull, 0x3a0e3fb6395d3b4dull, 0x3a0f8a2c7b679f76ull, 0x3a1031cfc3c03397ull, 0x3a1159f0e404c98full, 0x3a1159f0e404c990ull,
0x3a13477d6f21c383ull, 0x3a1968d4f544b17cull, 0x3a1968d4f544b17dull, 0x3a1f0521a4359f47ull, 0x3a1f0521a4359f48ull, 0x3a1fe5bb70911c39ull, 0x3a1fe5bb70911c3aull, 0x3a2159f0e404c98full,
0x3a2159f0e404c990ull, 0x3a218c03f725c2e8ull, 0x3a23477d6f21c383ull, 0x3a2b2a088dfbab60ull, 0x3a2b2a088dfbab61ull, 0x3a2ea6b59eaea5dfull, 0x3a2ea6b59eaea5e0ull, 0x3a2fe5bb70911c39ull,
0x3a2fe5bb70911c3aull, 0x3a318c03f725c2e8ull, 0x3a32d73088f4050aull, 0x3a33477d6f21c383ull, 0x3a34c4bd1410fefdull, 0x3a34c4bd1410fefeull, 0x3a3c0aa25a572852ull, 0x3a3c0aa25a572853ull,
0x3a3ea6b59eaea5dfull, 0x3a3ea6b59eaea5e0ull, 0x3a40ab6a2aca45f6ull, 0x3a42d73088f4050aull, 0x3a4c7aef4084e6cbull, 0x3a4c7aef4084e6ccull, 0x3a4e3055588b0182ull, 0x3a4e3055588b0183ull,
0x3a4f874f6b0a22d1ull, 0x3a4f874f6b0a22d2ull, 0x3a503b1d449c877dull, 0x3a52d73088f4050aull, 0x3a530f56fc0ae446ull, 0x3a530f56fc0ae447ull, 0x3a5e3055588b0182ull, 0x3a5e3055588b0183ull,
0x3a5ff79c5137e14aull, 0x3a5ff79c5137e14bull, 0x3a6002f6d185a840ull, 0x3a6002f6d185a841ull, 0x3a618c03f725c2e8ull, 0x3a62d73088f4050aull, 0x3a630f56fc0ae446ull, 0x3a630f56fc0ae447ull,
0x3a6f874f6b0a22d1ull, 0x3a6f874f6b0a22d2ull, 0x3a6fbf75de21020eull, 0x3a707343b7b366b9ull, 0x3a707343b7b366baull, 0x3a70985db160f407ull, 0x3a72d73088f4050aull, 0x3a778cfcab31064cull,
0x3a778cfcab31064dull, 0x3a77c5231e47e589ull, 0x3a7f874f6b0a22d1ull, 0x3a7f874f6b0a22d2ull, 0x3a82d73088f4050aull, 0x3a866d933f677dcbull, 0x3a86e48951ec6897ull, 0x3a878cfcab31064cull,
0x3a878cfcab31064dull, 0x3a87c5231e47e589ull, 0x3a87fd49915ec4c5ull, 0x3a87fd49915ec4c6ull, 0x3a91b7c71d2a7c88ull, 0x3a91b7c71d2a7c89ull, 0x3a9281885422f7ddull, 0x3a96e48951ec6897ull,
0x3a978cfcab31064cull, 0x3a978cfcab31064dull, 0x3a97fd49915ec4c5ull, 0x3a97fd49915ec4c6ull, 0x3aa1b7c71d2a7c88ull, 0x3aa1b7c71d2a7c89ull, 0x3aa281885422f7ddull, 0x3aa4a261e42dc16aull,
0x3aa4a261e42dc16bull, 0x3aa78cfcab31064cull, 0x3aa78cfcab31064dull, 0x3aa7fd49915ec4c5ull, 0x3aa7fd49915ec4c6ull, 0x3aad2a0bc620b0d4ull, 0x3ab09f06ddb8205aull, 0x3ab1b7c71d2a7c88ull,
0x3ab1b7c71d2a7c89ull, 0x3ab617af47af63dbull, 0x3ab617af47af63dcull, 0x3ab78cfcab31064cull, 0x3ab78cfcab31064dull, 0x3ab7fd49915ec4c5ull, 0x3ab7fd49915ec4c6ull, 0x3abd2a0bc620b0d4ull,
0x3ac09f06ddb8205aull, 0x3ac0f68d29c1939bull, 0x3ac1b7c71d2a7c88ull, 0x3ac1b7c71d2a7c89ull, 0x3ac7fd49915ec4c5ull, 0x3ac7fd49915ec4c6ull, 0x3ac9024a0eb2a8bdull, 0x3ac9024a0eb2a8beull,
0x3acf2fc91f00af90ull, 0x3acf2fc91f00af91ull, 0x3ad0054c6e8c27d9ull, 0x3ad0054c6e8c27daull, 0x3ad09f06ddb8205aull, 0x3ad55d0895ee92a3ull, 0x3ad9024a0eb2a8bdull, 0x3ad9024a0eb2a8beull,
0x3adc250b48ccccdcull, 0x3adf2fc91f00af90ull, 0x3adf2fc91f00af91ull, 0x3ae23a475bd46e84ull, 0x3ae23a475bd46e85ull, 0x3ae3d587d9f0bcafull, 0x3ae4c6c895262870ull, 0x3ae4c6c895262871ull,
0x3ae55d0895ee92a3ull, 0x3ae9024a0eb2a8bdull, 0x3ae9024a0eb2a8beull, 0x3aec250b48ccccdcull, 0x3af1d8672cd4f907ull, 0x3af1d8672cd4f908ull, 0x3af3d587d9f0bcafull, 0x3af51bc8769999a5ull,
0x3af9438a2e07a1bbull, 0x3af9438a2e07a1bcull, 0x3afc86eb77cc4259ull, 0x3afeb18c821e86c8ull, 0x3b0197270d800009ull, 0x3b0197270d80000aull, 0x3b03d587d9f0bcafull, 0x3b05b809505b9432ull,
0x3b09438a2e07a1bbull, 0x3b09438a2e07a1bcull, 0x3b0bddca507e4383ull, 0x3b0bddca507e4384ull, 0x3b0cc82b97213b57ull, 0x3b104a06fc44af25ull, 0x3b104a06fc44af26ull, 0x3b1197270d800009ull,
0x3b1197270d80000aull, 0x3b156d589dc3d0e2ull, 0x3b156d589dc3d0e3ull, 0x3b18f1fa06dd6a7eull, 0x3b19438a2e07a1bbull, 0x3b19438a2e07a1bcull, 0x3b1bddca507e4383ull, 0x3b1bddca507e4384ull,
0x3b204a06fc44af25ull, 0x3b204a06fc44af26ull, 0x3b2197270d800009ull, 0x3b2197270d80000aull, 0x3b256d589dc3d0e2ull, 0x3b256d589dc3d0e3ull, 0x3b28f1fa06dd6a7eull, 0x3b2b81eafa785e61ull,
0x3b332ef7d153143dull, 0x3b33823fd5a1e876ull, 0x3b356d589dc3d0e2ull, 0x3b356d589dc3d0e3ull, 0x3b3b260ba472793eull, 0x3b3b260ba472793full, 0x3b3b81eafa785e61ull, 0x3b456d589dc3d0e2ull,
0x3b456d589dc3d0e3ull, 0x3b47587165e5b94full, 0x3b4b260ba472793eull, 0x3b4b260ba472793full, 0x3b4b81eafa785e61ull, 0x3b4f2e788894c51dull, 0x3b4f2e788894c51eull, 0x3b54738090d75437ull,
0x3b54738090d75438ull, 0x3b556d589dc3d0e2ull, 0x3b556d589dc3d0e3ull, 0x3b57587165e5b94full, 0x3b596d2e302f0bd8ull, 0x3b5a4de8932c4b00ull, 0x3b5b81eafa785e61ull, 0x3b64738090d75437ull,
0x3b64738090d75438ull, 0x3b67587165e5b94full, 0x3b6862cfcb0a6293ull, 0x3b6862cfcb0a6294ull, 0x3b6b81eafa785e61ull, 0x3b6bddca507e4383ull, 0x3b6bddca507e4384ull, 0x3b6edb308445f0e4ull,
0x3b6edb308445f0e5ull, 0x3b7207843efe9f9dull, 0x3b7207843efe9f9eull, 0x3b74738090d75437ull, 0x3b74738090d75438ull, 0x3b764e1300c1100aull, 0x3b764e1300c1100bull, 0x3b7828a570aacbddull,
0x3b7828a570aacbdeull, 0x3b7b81eafa785e61ull, 0x3b7db3bcf1f17c45ull, 0x3b8207843efe9f9dull, 0x3b8207843efe9f9eull, 0x3b864e1300c1100aull, 0x3b864e1300c1100bull, 0x3b8828a570aacbddull,
0x3b8828a570aacbdeull, 0x3b8db3bcf1f17c45ull, 0x3b9070b15bfbaee0ull, 0x3b9207843efe9f9dull, 0x3b9207843efe9f9eull, 0x3b942acb9fdfd7d4ull, 0x3b964e1300c1100aull, 0x3b964e1300c1100bull,
0x3b973b5c38b5edf4ull, 0x3b9f4a8fd4f46d02ull, 0x3b9f4a8fd4f46d03ull, 0x3ba207843efe9f9dull, 0x3ba207843efe9f9eull, 0x3ba64e1300c1100aull, 0x3ba64e1300c1100bull, 0x3ba73b5c38b5edf4ull,
0x3baaf0811889659aull, 0x3bac1cea0eee8b87ull, 0x3bac1cea0eee8b88ull, 0x3bb16c852a887277ull, 0x3bb207843efe9f9dull, 0x3bb207843efe9f9eull, 0x3bb64e1300c1100aull, 0x3bb64e1300c1100bull,
0x3bb7123726f69592ull, 0x3bb7123726f69593ull, 0x3bbaf0811889659aull, 0x3bbc1cea0eee8b87ull, 0x3bbc1cea0eee8b88ull, 0x3bc48cddb2fa9a98ull, 0x3bc64e1300c1100aull, 0x3bc64e1300c1100bull,
0x3bc7123726f69592ull, 0x3bc7123726f69593ull, 0x3bcc1cea0eee8b87ull, 0x3bcc1cea0eee8b88ull, 0x3bcd0a3346e36971ull, 0x3bcf045596054946ull, 0x3bd43460d2670c33ull, 0x3bd43460d2670c34ull,
0x3bd64e1300c1100aull, 0x3bd64e1300c1100bull, 0x3bdc1cea0eee8b87ull, 0x3bdc1cea0eee8b88ull, 0x3bdd0a3346e36971ull, 0x3bdeb4dbba291f66ull, 0x3bdeb4dbba291f67ull, 0x3bdf045596054946ull,
0x3be2699652196261ull, 0x3be2699652196262ull, 0x3be43460d2670c33ull, 0x3be43460d2670c34ull, 0x3be64e1300c1100aull, 0x3be64e1300c1100bull, 0x3be743403083f6f4ull, 0x3be743403083f6f5ull,
0x3be9749e464815cdull, 0x3bec1cea0eee8b87ull, 0x3bec1cea0eee8b88ull, 0x3bf1eeffba37eeecull, 0x3bf1eeffba37eeedull, 0x3bf2699652196261ull, 0x3bf2699652196262ull, 0x3bf43460d2670c33ull,
0x3bf43460d2670c34ull, 0x3bf45bd4a96d3936ull, 0x3bf9b0151fb9413eull, 0x3bfa328faf68bdb3ull, 0x3bfa328faf68bdb4ull, 0x3c007757fac58b8dull, 0x3c045bd4a96d3936ull, 0x3c04f2523b87b41aull,
0x3c09749e464815cdull, 0x3c0a328faf68bdb3ull, 0x3c0a328faf68bdb4ull, 0x3c0c9780a6cffefcull, 0x3c0c9780a6cffefdull, 0x3c107757fac58b8dull, 0x3c145bd4a96d3936ull, 0x3c17337840e7e4f3ull,
0x3c17337840e7e4f4ull, 0x3c19749e464815cdull, 0x3c1a328faf68bdb3ull, 0x3c1a328faf68bdb4ull, 0x3c1c9780a6cffefcull, 0x3c1c9780a6cffefdull, 0x3c207757fac58b8dull, 0x3c21f6e3b205f7edull,
0x3c245bd4a96d3936ull, 0x3c27337840e7e4f3ull, 0x3c27337840e7e4f4ull, 0x3c2972c9d3c88783ull, 0x3c2972c9d3c88784ull, 0x3c2b05253d4c4340ull, 0x3c30d73ae895a6a5ull, 0x3c31f6e3b205f7edull,
0x3c329987c9016fedull, 0x3c329987c9016feeull, 0x3c37337840e7e4f3ull, 0x3c37337840e7e4f4ull, 0x3c3972c9d3c88783ull, 0x3c3972c9d3c88784ull, 0x3c3b05253d4c4340ull, 0x3c40d73ae895a6a5ull,
0x3c41f6e3b205f7edull, 0x3c45b5c0fc2706ddull, 0x3c47337840e7e4f3ull, 0x3c47337840e7e4f4ull, 0x3c4912e6e5f86c6bull, 0x3c4912e6e5f86c6cull, 0x3c4972c9d3c88783ull, 0x3c4972c9d3c88784ull,
0x3c50d73ae895a6a5ull, 0x3c51072c5f7db431ull, 0x3c55b5c0fc2706ddull, 0x3c57337840e7e4f3ull, 0x3c57337840e7e4f4ull, 0x3c5912e6e5f86c6bull, 0x3c5912e6e5f86c6cull, 0x3c595ad1185480bdull,
0x3c595ad1185480beull, 0x3c60e337464faa08ull, 0x3c61072c5f7db431ull, 0x3c67337840e7e4f3ull, 0x3c67337840e7e4f4ull, 0x3c6912e6e5f86c6bull, 0x3c6912e6e5f86c6cull, 0x3c695ad1185480bdull,
0x3c695ad1185480beull, 0x3c71072c5f7db431ull, 0x3c794ed4ba9a7d5aull, 0x3c794ed4ba9a7d5bull, 0x3c7be20cdd91379full, 0x3c7be20cdd9137a0ull, 0x3c7d5fc4225215b6ull, 0x3c7fb70e70a6bf0cull,
0x3c80e935752cabb9ull, 0x3c80e935752cabbaull, 0x3c81072c5f7db431ull, 0x3c885f1d6812399eull, 0x3c885f1d6812399full, 0x3c894ed4ba9a7d5aull, 0x3c894ed4ba9a7d5bull, 0x3c8be20cdd91379full,
0x3c8be20cdd9137a0ull, 0x3c8d5fc4225215b6ull, 0x3c90e935752cabb9ull, 0x3c90e935752cabbaull, 0x3c91072c5f7db431ull, 0x3c951c0517e3948aull, 0x3c9607d319bd9048ull, 0x3c9607d319bd9049ull,
0x3c98f4effba763f4ull, 0x3c9be20cdd91379full, 0x3c9be20cdd9137a0ull, 0x3ca1072c5f7db431ull, 0x3ca19cfef312de86ull, 0x3ca19cfef312de87ull, 0x3ca7858a5e7e6e5full, 0x3ca8f4effba763f4ull,
0x3caa645598d05989ull, 0x3cad81a45d51662bull, 0x3cb744685e678d2eull, 0x3cb8f4effba763f4ull, 0x3cba645598d05989ull, 0x3cbd81a45d51662bull, 0x3cbe1776f0e69080ull, 0x3cbe1776f0e69081ull,
0x3cc2b7b3fcbd8af7ull, 0x3cc744685e678d2eull, 0x3cc8f4effba763f4ull, 0x3cc9aca2ca3bdebeull, 0x3cc9aca2ca3bdebfull, 0x3cca63065ddc79acull, 0x3cca63065ddc79adull, 0x3cce1776f0e69080ull,
0x3cce1776f0e69081ull, 0x3cd1734e46cda9e2ull, 0x3cd1734e46cda9e3ull, 0x3cd2b7b3fcbd8af7ull, 0x3cd9aca2ca3bdebeull, 0x3cd9aca2ca3bdebfull, 0x3cda63065ddc79acull, 0x3cda63065ddc79adull,
0x3cde1776f0e69080ull, 0x3cde1776f0e69081ull, 0x3ce2b7b3fcbd8af7ull, 0x3cea645598d05989ull, 0x3ced158276017079ull, 0x3ced15827601707aull, 0x3cef322bfa913cf1ull, 0x3cefe9dec925b7bbull,
0x3cefe9dec925b7bcull, 0x3cf01a103abb2e7cull, 0x3cf2b7b3fcbd8af7ull, 0x3cfae01862ac1798ull, 0x3cfae01862ac1799ull, 0x3cfccb40c9b0cb3dull, 0x3cfd158276017079ull, 0x3cfd15827601707aull,
0x3cff322bfa913cf1ull, 0x3d001a103abb2e7cull, 0x3d02b7b3fcbd8af7ull, 0x3d0d158276017079ull, 0x3d0d15827601707aull, 0x3d0dfeb662210417ull, 0x3d0e98712e592084ull, 0x3d0f322bfa913cf1ull,
0x3d10d06e56231becull, 0x3d12b7b3fcbd8af7ull, 0x3d1e98712e592084ull, 0x3d1ee54e94752ebaull, 0x3d1ee54e94752ebbull, 0x3d1f2683b9526f24ull, 0x3d1f2683b9526f25ull, 0x3d1f322bfa913cf1ull,
0x3d2036b389eaff7full, 0x3d2101f649f50d9cull, 0x3d2101f649f50d9dull, 0x3d2420944969fa1bull, 0x3d2ee54e94752ebaull, 0x3d2ee54e94752ebbull, 0x3d2f2683b9526f24ull, 0x3d2f2683b9526f25ull,
0x3d2f322bfa913cf1ull, 0x3d3036b389eaff7full, 0x3d3420944969fa1bull, 0x3d373f3248dee699ull, 0x3d373f3248dee69aull, 0x3d3b12406eaa0aaaull, 0x3d3ee54e94752ebaull, 0x3d3ee54e94752ebbull,
0x3d3f2683b9526f24ull, 0x3d3f2683b9526f25ull, 0x3d4036b389eaff7full, 0x3d408390f0070db5ull, 0x3d408390f0070db6ull, 0x3d473f3248dee699ull, 0x3d473f3248dee69aull, 0x3d4b12406eaa0aaaull,
0x3d4e8cc8ed1a52b7ull, 0x3d4e8cc8ed1a52b8ull, 0x3d4ff06419a23e2cull, 0x3d4ff06419a23e2dull, 0x3d508390f0070db5ull, 0x3d508390f0070db6ull, 0x3d531f46bcf7b452ull, 0x3d531f46bcf7b453ull,
0x3d536c242313c289ull, 0x3d573f3248dee699ull, 0x3d573f3248dee69aull, 0x3d5b12406eaa0aaaull, 0x3d5f09cbe74e1389ull, 0x3d62858bf0bf97e5ull, 0x3d62858bf0bf97e6ull, 0x3d636c242313c289ull,
0x3d6405deef4bdef6ull, 0x3d644db052ff87ffull, 0x3d644db052ff8800ull, 0x3d6cd558ce819597ull, 0x3d6e03c264896944ull, 0x3d736c242313c289ull, 0x3d7405deef4bdef6ull, 0x3d744db052ff87ffull,
0x3d744db052ff8800ull, 0x3d7820be78caac10ull, 0x3d7c887b68658760ull, 0x3d7c887b68658761ull, 0x3d7c8b016999b9f7ull, 0x3d82858bf0bf97e5ull, 0x3d82858bf0bf97e6ull, 0x3d8405deef4bdef6ull,
0x3d85c6714def374cull, 0x3d85c6714def374dull, 0x3d8820be78caac10ull, 0x3d8c887b68658760ull, 0x3d8c887b68658761ull, 0x3d8f8921657e1581ull, 0x3d8f8921657e1582ull, 0x3d90c4f9921c3f8full,
0x3d92858bf0bf97e5ull, 0x3d92858bf0bf97e6ull, 0x3d95c6714def374cull, 0x3d95c6714def374dull, 0x3d990756ab1ed6b3ull, 0x3d990756ab1ed6b4ull, 0x3d9bcea0ec21e250ull, 0x3d9bcea0ec21e251ull,
0x3da2858bf0bf97e5ull, 0x3da2858bf0bf97e6ull, 0x3da5c6714def374cull, 0x3da5c6714def374dull, 0x3da8ca891d088cceull, 0x3da8ca891d088ccfull, 0x3dabcea0ec21e250ull, 0x3dabcea0ec21e251ull,
0x3dae28ee16fd5714ull, 0x3db0447ad1ee1d03ull, 0x3db2858bf0bf97e5ull, 0x3db2858bf0bf97e6ull, 0x3db425fe9f576799ull, 0x3db5c6714def374cull, 0x3db5c6714def374dull, 0x3dbe28ee16fd5714ull,
0x3dc2858bf0bf97e5ull, 0x3dc2858bf0bf97e6ull, 0x3dc5c6714def374cull, 0x3dc5c6714def374dull, 0x3dcaa7c959b6a667ull, 0x3dcd50acd3ae8d11ull, 0x3dcd50acd3ae8d12ull, 0x3dcfd9709d9aeb19ull,
0x3dd5c6714def374cull, 0x3dd5c6714def374dull, 0x3dd98b8f10cee22full, 0x3ddaa7c959b6a667ull, 0x3ddfd9709d9aeb19ull, 0x3de2d994ce5e566cull, 0x3de2d994ce5e566dull, 0x3de5c6714def374cull,
0x3de5c6714def374dull, 0x3de9f8445375577aull, 0x3deaa7c959b6a667ull, 0x3ded409cfba8c8c0ull, 0x3defd9709d9aeb19ull, 0x3df450030e26c6dcull, 0x3df450030e26c6ddull, 0x3df5c6714def374cull,
0x3df5c6714def374dull, 0x3dfa5006d695fef0ull, 0x3dfa5006d695fef1ull, 0x3dfaa7c959b6a667ull, 0x3dfe8d06cca1d9ecull, 0x3dfe8d06cca1d9edull, 0x3dffd9709d9aeb19ull, 0x3e03d1f5c1b8a912ull,
0x3e050b3a2e0aff14ull, 0x3e050b3a2e0aff15ull, 0x3e05c6714def374cull, 0x3e05c6714def374dull, 0x3e073cdf8db7a7bcull, 0x3e073cdf8db7a7bdull, 0x3e0aa7c959b6a667ull, 0x3e0fd9709d9aeb19ull,
0x3e1394cbee428ea4ull, 0x3e1394cbee428ea5ull, 0x3e13d1f5c1b8a912ull, 0x3e150b3a2e0aff14ull, 0x3e150b3a2e0aff15ull, 0x3e1568d5bdfd1b30ull, 0x3e1568d5bdfd1b31ull, 0x3e173cdf8db7a7bcull,
0x3e173cdf8db7a7bdull, 0x3e2394cbee428ea4ull, 0x3e2394cbee428ea5ull, 0x3e2568d5bdfd1b30ull, 0x3e2568d5bdfd1b31ull, 0x3e273cdf8db7a7bcull, 0x3e273cdf8db7a7bdull, 0x3e2a5006d695fef0ull,
0x3e2a5006d695fef1ull, 0x3e2c315cfe25d201ull, 0x3e347ed0d61fd4eaull, 0x3e347ed0d61fd4ebull, 0x3e3568d5bdfd1b30ull, 0x3e3568d5bdfd1b31ull, 0x3e373cdf8db7a7bcull, 0x3e373cdf8db7a7bdull,
0x3e38c6733226d356ull, 0x3e38c6733226d357ull, 0x3e3c315cfe25d201ull, 0x3e42aac70665485eull, 0x3e42aac70665485full, 0x3e44f3d34a0e780dull, 0x3e44f3d34a0e780eull, 0x3e4568d5bdfd1b30ull,
0x3e4568d5bdfd1b31ull, 0x3e473cdf8db7a7bcull, 0x3e473cdf8db7a7bdull, 0x3e4801a95fef3d89ull, 0x3e4801a95fef3d8aull, 0x3e54f3d34a0e780dull, 0x3e54f3d34a0e780eull, 0x3e55b34be9487c22ull,
0x3e55b34be9487c23ull, 0x3e573cdf8db7a7bcull, 0x3e573cdf8db7a7bdull, 0x3e579f4476d372a3ull, 0x3e598b3d045e6923ull, 0x3e598b3d045e6924ull, 0x3e64f3d34a0e780dull, 0x3e64f3d34a0e780eull,
0x3e65b34be9487c22ull, 0x3e65b34be9487c23ull, 0x3e6618596be30fe5ull, 0x3e673cdf8db7a7bcull, 0x3e673cdf8db7a7bdull, 0x3e679f4476d372a3ull, 0x3e718640e490b087ull, 0x3e74f3d34a0e780dull,
0x3e74f3d34a0e780eull, 0x3e75b34be9487c22ull, 0x3e75b34be9487c23ull, 0x3e7618596be30fe5ull, 0x3e773cdf8db7a7bcull, 0x3e773cdf8db7a7bdull, 0x3e779f4476d372a3ull, 0x3e818640e490b087ull,
0x3e83c7535bbd85a2ull, 0x3e873cdf8db7a7bcull, 0x3e873cdf8db7a7bdull, 0x3e879f4476d372a3ull, 0x3e8c91194dc2d40bull, 0x3e8c91194dc2d40cull, 0x3e8d632e1f745624ull, 0x3e8d632e1f745625ull,
0x3e93c7535bbd85a2ull, 0x3e94305dc49646aeull, 0x3e94305dc49646afull, 0x3e973cdf8db7a7bcull, 0x3e973cdf8db7a7bdull, 0x3e979f4476d372a3ull, 0x3e98c32072485843ull, 0x3e98c32072485844ull,
0x3e9d632e1f745624ull, 0x3e9d632e1f745625ull, 0x3ea0c32072485843ull, 0x3ea0c32072485844ull, 0x3ea3c7535bbd85a2ull, 0x3ea4305dc49646aeull, 0x3ea4305dc49646afull, 0x3ea73cdf8db7a7bcull,
0x3ea73cdf8db7a7bdull, 0x3eab0e2b29109e97ull, 0x3eab0e2b29109e98ull, 0x3eabcfa23b69b951ull, 0x3eabcfa23b69b952ull, 0x3eb0c32072485843ull, 0x3eb0c32072485844ull, 0x3eb33cdf8db7a7bcull,
0x3eb33cdf8db7a7bdull, 0x3eb3cfa23b69b951ull, 0x3eb3cfa23b69b952ull, 0x3eb4305dc49646aeull, 0x3eb4305dc49646afull, 0x3eb4f1d4d6ef6168ull, 0x3eb4f1d4d6ef6169ull, 0x3ebb0e2b29109e97ull,
0x3ebb0e2b29109e98ull, 0x3ec0305dc49646aeull, 0x3ec0305dc49646afull, 0x3ec30e2b29109e97ull, 0x3ec30e2b29109e98ull, 0x3ec3cfa23b69b951ull, 0x3ec3cfa23b69b952ull, 0x3ec4f1d4d6ef6168ull,
0x3ec4f1d4d6ef6169ull, 0x3ec746d7cd5318f5ull, 0x3ec746d7cd5318f6ull, 0x3ec8b92832ace70aull, 0x3ec8b92832ace70bull, 0x3ed0305dc49646aeull, 0x3ed0305dc49646afull, 0x3ed0b92832ace70aull,
0x3ed0b92832ace70bull, 0x3ed0f1d4d6ef6168ull, 0x3ed0f1d4d6ef6169ull, 0x3ed1cfa23b69b951ull, 0x3ed1cfa23b69b952ull, 0x3ed30e2b29109e97ull, 0x3ed30e2b29109e98ull, 0x3ed746d7cd5318f5ull,
0x3ed746d7cd5318f6ull, 0x3ee0305dc49646aeull, 0x3ee0305dc49646afull, 0x3ee0b92832ace70aull, 0x3ee0b92832ace70bull, 0x3ee0cfa23b69b951ull, 0x3ee0cfa23b69b952ull, 0x3ee0f1d4d6ef6168ull,
0x3ee0f1d4d6ef6169ull, 0x3ee10e2b29109e97ull, 0x3ee10e2b29109e98ull, 0x3ee346d7cd5318f5ull, 0x3ee346d7cd5318f6ull, 0x3ef00e2b29109e97ull, 0x3ef00e2b29109e98ull, 0x3ef06237029f7ccbull,
0x3ef06237029f7cccull, 0x3ef0b92832ace70aull, 0x3ef0b92832ace70bull, 0x3ef0f1d4d6ef6168ull, 0x3ef0f1d4d6ef6169ull, 0x3ef146d7cd5318f5ull, 0x3ef146d7cd5318f6ull, 0x3ef39dc8fd608334ull,
0x3ef39dc8fd608335ull, 0x3f000e2b29109e97ull, 0x3f000e2b29109e98ull, 0x3f0046d7cd5318f5ull, 0x3f0046d7cd5318f6ull, 0x3f006237029f7ccbull, 0x3f006237029f7cccull, 0x3f0071d4d6ef6168ull,
0x3f0071d4d6ef6169ull, 0x3f00b92832ace70aull, 0x3f00b92832ace70bull, 0x3f019dc8fd608334ull, 0x3f019dc8fd608335ull, 0x3f100e2b29109e97ull, 0x3f100e2b29109e98ull, 0x3f1031d4d6ef6168ull,
0x3f1031d4d6ef6169ull, 0x3f10392832ace70aull, 0x3f10392832ace70bull, 0x3f1046d7cd5318f5ull, 0x3f1046d7cd5318f6ull, 0x3f106237029f7ccbull, 0x3f106237029f7cccull, 0x3f109dc8fd608334ull,
0x3f109dc8fd608335ull, 0x3f2006d7cd5318f5ull, 0x3f2006d7cd5318f6ull, 0x3f2014ecf2e29006ull, 0x3f2014ecf2e29007ull, 0x3f201dc8fd608334ull, 0x3f201dc8fd608335ull, 0x3f20392832ace70aull,
0x3f20392832ace70bull, 0x3f206237029f7ccbull, 0x3f206237029f7cccull, 0x3f20eb130d1d6ff9ull, 0x3f20eb130d1d6ffaull, 0x3f3006d7cd5318f5ull, 0x3f3006d7cd5318f6ull, 0x3f3014ecf2e29006ull,
0x3f3014ecf2e29007ull, 0x3f30192832ace70aull, 0x3f30192832ace70bull, 0x3f301dc8fd608334ull, 0x3f301dc8fd608335ull, 0x3f302237029f7ccbull, 0x3f302237029f7cccull, 0x3f306b130d1d6ff9ull,
0x3f306b130d1d6ffaull, 0x3f400237029f7ccbull, 0x3f400237029f7cccull, 0x3f4006d7cd5318f5ull, 0x3f4006d7cd5318f6ull, 0x3f40092832ace70aull, 0x3f40092832ace70bull, 0x3f4014ecf2e29006ull,
0x3f4014ecf2e29007ull, 0x3f401dc8fd608334ull, 0x3f401dc8fd608335ull, 0x3f402b130d1d6ff9ull, 0x3f402b130d1d6ffaull, 0x3f50012832ace70aull, 0x3f50012832ace70bull, 0x3f500237029f7ccbull,
0x3f500237029f7cccull, 0x3f5006d7cd5318f5ull, 0x3f5006d7cd5318f6ull, 0x3f500b130d1d6ff9ull, 0x3f500b130d1d6ffaull, 0x3f500dc8fd608334ull, 0x3f500dc8fd608335ull, 0x3f5014ecf2e29006ull,
0x3f5014ecf2e29007ull, 0x3f600237029f7ccbull, 0x3f600237029f7cccull, 0x3f6004ecf2e29006ull, 0x3f6004ecf2e29007ull, 0x3f6005c8fd608334ull, 0x3f6005c8fd608335ull, 0x3f6008a0be6cd020ull,
0x3f6008a0be6cd021ull, 0x3f600b130d1d6ff9ull, 0x3f600b130d1d6ffaull, 0x3f60175f41932fdfull, 0x3f60175f41932fe0ull, 0x3f7001c8fd608334ull, 0x3f7001c8fd608335ull, 0x3f700237029f7ccbull,
0x3f700237029f7cccull, 0x3f7003130d1d6ff9ull, 0x3f7003130d1d6ffaull, 0x3f7004ecf2e29006ull, 0x3f7004ecf2e29007ull, 0x3f70075f41932fdfull, 0x3f70075f41932fe0ull, 0x3f7008a0be6cd020ull,
0x3f7008a0be6cd021ull, 0x3f800037029f7ccbull, 0x3f800037029f7cccull, 0x3f8000a0be6cd020ull, 0x3f8000a0be6cd021ull, 0x3f8000ecf2e29006ull, 0x3f8000ecf2e29007ull, 0x3f8001c8fd608334ull,
0x3f8001c8fd608335ull, 0x3f8003130d1d6ff9ull, 0x3f8003130d1d6ffaull, 0x3f80075f41932fdfull, 0x3f80075f41932fe0ull, 0x3f9000a0be6cd020ull, 0x3f9000a0be6cd021ull, 0x3f9000ecf2e29006ull,
0x3f9000ecf2e29007ull, 0x3f9001130d1d6ff9ull, 0x3f9001130d1d6ffaull, 0x3f900323b82010a2ull, 0x3f900323b82010a3ull, 0x3f90035f41932fdfull, 0x3f90035f41932fe0ull, 0x3f9004dc47dfef5dull,
0x3f9004dc47dfef5eull, 0x3fa000130d1d6ff9ull, 0x3fa000130d1d6ffaull, 0x3fa000a0be6cd020ull, 0x3fa000a0be6cd021ull, 0x3fa000dc47dfef5dull, 0x3fa000dc47dfef5eull, 0x3fa000ecf2e29006ull,
0x3fa000ecf2e29007ull, 0x3fa0015f41932fdfull, 0x3fa0015f41932fe0ull, 0x3fa00323b82010a2ull, 0x3fa00323b82010a3ull, 0x3fb000130d1d6ff9ull, 0x3fb000130d1d6ffaull, 0x3fb0005f41932fdfull,
0x3fb0005f41932fe0ull, 0x3fb0006cf2e29006ull, 0x3fb0006cf2e29007ull, 0x3fb000a0be6cd020ull, 0x3fb000a0be6cd021ull, 0x3fb000dc47dfef5dull, 0x3fb000dc47dfef5eull, 0x3fb00123b82010a2ull,
0x3fb00123b82010a3ull, 0x3fc00020be6cd020ull, 0x3fc00020be6cd021ull, 0x3fc00023b82010a2ull, 0x3fc00023b82010a3ull, 0x3fc0004d675facd3ull, 0x3fc0004d675facd4ull, 0x3fc0005f41932fdfull,
0x3fc0005f41932fe0ull, 0x3fc000dc47dfef5dull, 0x3fc000dc47dfef5eull, 0x3fc001b298a0532cull, 0x3fc001b298a0532dull, 0x3fd0001f41932fdfull, 0x3fd0001f41932fe0ull, 0x3fd00020be6cd020ull,
0x3fd00020be6cd021ull, 0x3fd00023b82010a2ull, 0x3fd00023b82010a3ull, 0x3fd0004d675facd3ull, 0x3fd0004d675facd4ull, 0x3fd0005c47dfef5dull, 0x3fd0005c47dfef5eull, 0x3fd000b298a0532cull,
0x3fd000b298a0532dull, 0x3fe00000be6cd020ull, 0x3fe00000be6cd021ull, 0x3fe0001c47dfef5dull, 0x3fe0001c47dfef5eull, 0x3fe0001f41932fdfull, 0x3fe0001f41932fe0ull, 0x3fe00023b82010a2ull,
0x3fe00023b82010a3ull, 0x3fe0003298a0532cull, 0x3fe0003298a0532dull, 0x3fe0004d675facd3ull, 0x3fe0004d675facd4ull, 0x3ff00000be6cd020ull, 0x3ff00000be6cd021ull, 0x3ff00003b82010a2ull,
0x3ff00003b82010a3ull, 0x3ff0000d675facd3ull, 0x3ff0000d675facd4ull, 0x3ff0000f41932fdfull, 0x3ff0000f41932fe0ull, 0x3ff0001c47dfef5dull, 0x3ff0001c47dfef5eull, 0x3ff0003298a0532cull,
0x3ff0003298a0532dull, 0x40000000be6cd020ull, 0x40000000be6cd021ull, 0x40000003b82010a2ull, 0x40000003b82010a3ull, 0x4000000741932fdfull, 0x4000000741932fe0ull, 0x4000000c47dfef5dull,
0x4000000c47dfef5eull, 0x4000000d675facd3ull, 0x4000000d675facd4ull, 0x4000001298a0532cull, 0x4000001298a0532dull, 0x40100000be6cd020ull, 0x40100000be6cd021ull, 0x4010000298a0532cull,
0x4010000298a0532dull, 0x4010000341932fdfull, 0x4010000341932fe0ull, 0x40100003b82010a2ull, 0x40100003b82010a3ull, 0x4010000447dfef5dull, 0x4010000447dfef5eull, 0x4010000d675facd3ull,
0x4010000d675facd4ull, 0x4020000047dfef5dull, 0x4020000047dfef5eull, 0x40200000be6cd020ull, 0x40200000be6cd021ull, 0x4020000141932fdfull, 0x4020000141932fe0ull, 0x4020000298a0532cull,
0x4020000298a0532dull, 0x40200003b82010a2ull, 0x40200003b82010a3ull, 0x40200005675facd3ull, 0x40200005675facd4ull, 0x4030000047dfef5dull, 0x4030000047dfef5eull, 0x40300001675facd3ull,
0x40300001675facd4ull, 0x40300001b82010a2ull, 0x40300001b82010a3ull, 0x4030000298a0532cull, 0x4030000298a0532dull, 0x4030000304de6021ull, 0x4030000304de6022ull, 0x40300004fb219fdeull,
0x40300004fb219fdfull, 0x4040000047dfef5dull, 0x4040000047dfef5eull, 0x4040000098a0532cull, 0x4040000098a0532dull, 0x40400000b82010a2ull, 0x40400000b82010a3ull, 0x40400000fb219fdeull,
0x40400000fb219fdfull, 0x40400001675facd3ull, 0x40400001675facd4ull, 0x4040000304de6021ull, 0x4040000304de6022ull, 0x40500000382010a2ull, 0x40500000382010a3ull, 0x4050000047dfef5dull,
0x4050000047dfef5eull, 0x40500000675facd3ull, 0x40500000675facd4ull, 0x4050000098a0532cull, 0x4050000098a0532dull, 0x40500000fb219fdeull, 0x40500000fb219fdfull, 0x4050000104de6021ull,
0x4050000104de6022ull, 0x4060000004de6021ull, 0x4060000004de6022ull, 0x4060000018a0532cull, 0x4060000018a0532dull, 0x40600000675facd3ull, 0x40600000675facd4ull, 0x40600000e7a81f58ull,
0x40600000e7a81f59ull, 0x40600000fb219fdeull, 0x40600000fb219fdfull, 0x406000011857e0a7ull, 0x406000011857e0a8ull, 0x4070000004de6021ull, 0x4070000004de6022ull, 0x407000001857e0a7ull,
0x407000001857e0a8ull, 0x4070000018a0532cull, 0x4070000018a0532dull, 0x40700000275facd3ull, 0x40700000275facd4ull, 0x407000007b219fdeull, 0x407000007b219fdfull, 0x40700000e7a81f58ull,
0x40700000e7a81f59ull, 0x4080000004de6021ull, 0x4080000004de6022ull, 0x40800000075facd3ull, 0x40800000075facd4ull, 0x408000001857e0a7ull, 0x408000001857e0a8ull, 0x4080000018a0532cull,
0x4080000018a0532dull, 0x408000003b219fdeull, 0x408000003b219fdfull, 0x4080000067a81f58ull, 0x4080000067a81f59ull, 0x4090000004de6021ull, 0x4090000004de6022ull, 0x4090000006489cbaull,
0x4090000006489cbbull, 0x409000001857e0a7ull, 0x409000001857e0a8ull, 0x409000001b219fdeull, 0x409000001b219fdfull, 0x4090000027a81f58ull, 0x4090000027a81f59ull, 0x4090000079b76345ull,
0x4090000079b76346ull, 0x40a0000004de6021ull, 0x40a0000004de6022ull, 0x40a0000006489cbaull, 0x40a0000006489cbbull, 0x40a0000007a81f58ull, 0x40a0000007a81f59ull, 0x40a000000b219fdeull,
0x40a000000b219fdfull, 0x40a000001857e0a7ull, 0x40a000001857e0a8ull, 0x40a0000039b76345ull, 0x40a0000039b76346ull, 0x40b0000003219fdeull, 0x40b0000003219fdfull, 0x40b0000004de6021ull,
0x40b0000004de6022ull, 0x40b0000006489cbaull, 0x40b0000006489cbbull, 0x40b0000007a81f58ull, 0x40b0000007a81f59ull, 0x40b000000857e0a7ull, 0x40b000000857e0a8ull, 0x40b0000019b76345ull,
0x40b0000019b76346ull, 0x40c000000057e0a7ull, 0x40c000000057e0a8ull, 0x40c0000000de6021ull, 0x40c0000000de6022ull, 0x40c0000003219fdeull, 0x40c0000003219fdfull, 0x40c0000006489cbaull,
0x40c0000006489cbbull, 0x40c0000007a81f58ull, 0x40c0000007a81f59ull, 0x40c0000009b76345ull, 0x40c0000009b76346ull, 0x40d000000057e0a7ull, 0x40d000000057e0a8ull, 0x40d000000094f05bull,
0x40d000000094f05cull, 0x40d0000001b76345ull, 0x40d0000001b76346ull, 0x40d0000003a81f58ull, 0x40d0000003a81f59ull, 0x40d0000006489cbaull, 0x40d0000006489cbbull, 0x40d000000f6b0fa4ull,
0x40d000000f6b0fa5ull, 0x40e000000057e0a7ull, 0x40e000000057e0a8ull, 0x40e000000094f05bull, 0x40e000000094f05cull, 0x40e0000001a81f58ull, 0x40e0000001a81f59ull, 0x40e0000001b76345ull,
0x40e0000001b76346ull, 0x40e0000002489cbaull, 0x40e0000002489cbbull, 0x40e00000076b0fa4ull, 0x40e00000076b0fa5ull, 0x40f0000000489cbaull, 0x40f0000000489cbbull, 0x40f000000057e0a7ull,
0x40f000000057e0a8ull, 0x40f000000094f05bull, 0x40f000000094f05cull, 0x40f0000000a81f58ull, 0x40f0000000a81f59ull, 0x40f0000001b76345ull, 0x40f0000001b76346ull, 0x40f00000036b0fa4ull,
0x40f00000036b0fa5ull, 0x4100000000489cbaull, 0x4100000000489cbbull, 0x410000000094f05bull, 0x410000000094f05cull, 0x4100000000b76345ull, 0x4100000000b76346ull, 0x4100000001174e36ull,
0x4100000001174e37ull, 0x41000000016b0fa4ull, 0x41000000016b0fa5ull, 0x4100000002e8b1c9ull, 0x4100000002e8b1caull, 0x4110000000376345ull, 0x4110000000376346ull, 0x4110000000489cbaull,
0x4110000000489cbbull, 0x41100000006b0fa4ull, 0x41100000006b0fa5ull, 0x411000000094f05bull, 0x411000000094f05cull, 0x4110000000e8b1c9ull, 0x4110000000e8b1caull, 0x4110000001174e36ull,
0x4110000001174e37ull, 0x4120000000089cbaull, 0x4120000000089cbbull, 0x412000000014f05bull, 0x412000000014f05cull, 0x4120000000174e36ull, 0x4120000000174e37ull, 0x4120000000376345ull,
0x4120000000376346ull, 0x41200000006b0fa4ull, 0x41200000006b0fa5ull, 0x4120000000e8b1c9ull, 0x4120000000e8b1caull, 0x413000000014f05bull, 0x413000000014f05cull, 0x4130000000174e36ull,
0x4130000000174e37ull, 0x41300000002b0fa4ull, 0x41300000002b0fa5ull, 0x413000000068b1c9ull, 0x413000000068b1caull, 0x4130000000748710ull, 0x4130000000748711ull, 0x41300000008b78efull,
0x41300000008b78f0ull, 0x41400000000b0fa4ull, 0x41400000000b0fa5ull, 0x41400000000b78efull, 0x41400000000b78f0ull, 0x414000000014f05bull, 0x414000000014f05cull, 0x4140000000174e36ull,
0x4140000000174e37ull, 0x414000000028b1c9ull, 0x414000000028b1caull, 0x4140000000748710ull, 0x4140000000748711ull, 0x415000000004f05bull, 0x415000000004f05cull, 0x415000000008b1c9ull,
0x415000000008b1caull, 0x41500000000b0fa4ull, 0x41500000000b0fa5ull, 0x41500000000b78efull, 0x41500000000b78f0ull, 0x4150000000174e36ull, 0x4150000000174e37ull, 0x4150000000348710ull,
0x4150000000348711ull, 0x4160000000030fa4ull, 0x4160000000030fa5ull, 0x416000000004f05bull, 0x416000000004f05cull, 0x4160000000074e36ull, 0x4160000000074e37ull, 0x416000000008b1c9ull,
0x416000000008b1caull, 0x41600000000b78efull, 0x41600000000b78f0ull, 0x4160000000148710ull, 0x4160000000148711ull, 0x417000000000b1c9ull, 0x417000000000b1caull, 0x4170000000048710ull,
0x4170000000048711ull, 0x417000000006a352ull, 0x417000000006a353ull, 0x4170000000074e36ull, 0x4170000000074e37ull, 0x41700000000b78efull, 0x41700000000b78f0ull, 0x4170000000195cadull,
0x4170000000195caeull, 0x418000000000b1c9ull, 0x418000000000b1caull, 0x4180000000034e36ull, 0x4180000000034e37ull, 0x41800000000378efull, 0x41800000000378f0ull, 0x4180000000048710ull,
0x4180000000048711ull, 0x418000000006a352ull, 0x418000000006a353ull, 0x4180000000095cadull, 0x4180000000095caeull, 0x4190000000008710ull, 0x4190000000008711ull, 0x419000000000b1c9ull,
0x419000000000b1caull, 0x4190000000014e36ull, 0x4190000000014e37ull, 0x4190000000015cadull, 0x4190000000015caeull, 0x41900000000378efull, 0x41900000000378f0ull, 0x419000000006a352ull,
0x419000000006a353ull, 0x41a0000000008710ull, 0x41a0000000008711ull, 0x41a000000001309cull, 0x41a000000001309dull, 0x41a0000000015cadull, 0x41a0000000015caeull, 0x41a00000000178efull,
0x41a00000000178f0ull, 0x41a000000002a352ull, 0x41a000000002a353ull, 0x41a000000006cf63ull, 0x41a000000006cf64ull, 0x41b00000000078efull, 0x41b00000000078f0ull, 0x41b0000000008710ull,
0x41b0000000008711ull, 0x41b000000000a352ull, 0x41b000000000a353ull, 0x41b000000001309cull, 0x41b000000001309dull, 0x41b0000000015cadull, 0x41b0000000015caeull, 0x41b000000002cf63ull,
0x41b000000002cf64ull, 0x41c0000000000710ull, 0x41c0000000000711ull, 0x41c0000000005cadull, 0x41c0000000005caeull, 0x41c00000000078efull, 0x41c00000000078f0ull, 0x41c000000000a352ull,
0x41c000000000a353ull, 0x41c000000000cf63ull, 0x41c000000000cf64ull, 0x41c000000001309cull, 0x41c000000001309dull, 0x41d0000000000cf1ull, 0x41d0000000000cf2ull, 0x41d0000000002352ull,
0x41d0000000002353ull, 0x41d000000000309cull, 0x41d000000000309dull, 0x41d0000000005cadull, 0x41d0000000005caeull, 0x41d000000000cf63ull, 0x41d000000000cf64ull, 0x41d000000001f30eull,
0x41d000000001f30full, 0x41e0000000000cf1ull, 0x41e0000000000cf2ull, 0x41e0000000001cadull, 0x41e0000000001caeull, 0x41e0000000002352ull, 0x41e0000000002353ull, 0x41e000000000309cull,
0x41e000000000309dull, 0x41e0000000004f63ull, 0x41e0000000004f64ull, 0x41e000000000f30eull, 0x41e000000000f30full, 0x41f0000000000352ull, 0x41f0000000000353ull, 0x41f0000000000cf1ull,
0x41f0000000000cf2ull, 0x41f0000000000f63ull, 0x41f0000000000f64ull, 0x41f0000000001cadull, 0x41f0000000001caeull, 0x41f000000000309cull, 0x41f000000000309dull, 0x41f000000000730eull,
0x41f000000000730full, 0x4200000000000352ull, 0x4200000000000353ull, 0x4200000000000cadull, 0x4200000000000caeull, 0x4200000000000cf1ull, 0x4200000000000cf2ull, 0x4200000000000f63ull,
0x4200000000000f64ull, 0x420000000000109cull, 0x420000000000109dull, 0x420000000000330eull, 0x420000000000330full, 0x421000000000009cull, 0x421000000000009dull, 0x42100000000000b7ull,
0x42100000000000b8ull, 0x4210000000000cf1ull, 0x4210000000000cf2ull, 0x4210000000000f63ull, 0x4210000000000f64ull, 0x421000000000130eull, 0x421000000000130full, 0x4210000000003f48ull,
0x4210000000003f49ull, 0x422000000000009cull, 0x422000000000009dull, 0x42200000000000b7ull, 0x42200000000000b8ull, 0x422000000000030eull, 0x422000000000030full, 0x4220000000000763ull,
0x4220000000000764ull, 0x4220000000000cf1ull, 0x4220000000000cf2ull, 0x4220000000001f48ull, 0x4220000000001f49ull, 0x423000000000009cull, 0x423000000000009dull, 0x42300000000000b7ull,
0x42300000000000b8ull, 0x423000000000030eull, 0x423000000000030full, 0x4230000000000363ull, 0x4230000000000364ull, 0x42300000000004f1ull, 0x42300000000004f2ull, 0x4230000000000f48ull,
0x4230000000000f49ull, 0x42400000000000b7ull, 0x42400000000000b8ull, 0x42400000000000f1ull, 0x42400000000000f2ull, 0x424000000000030eull, 0x424000000000030full, 0x4240000000000395ull,
0x4240000000000396ull, 0x4240000000000748ull, 0x4240000000000749ull, 0x4240000000000c6aull, 0x4240000000000c6bull, 0x42500000000000b7ull, 0x42500000000000b8ull, 0x42500000000000f1ull,
0x42500000000000f2ull, 0x425000000000010eull, 0x425000000000010full, 0x4250000000000348ull, 0x4250000000000349ull, 0x4250000000000395ull, 0x4250000000000396ull, 0x425000000000046aull,
0x425000000000046bull, 0x426000000000000eull, 0x426000000000000full, 0x426000000000006aull, 0x426000000000006bull, 0x42600000000000b7ull, 0x42600000000000b8ull, 0x42600000000000f1ull,
0x42600000000000f2ull, 0x4260000000000148ull, 0x4260000000000149ull, 0x4260000000000395ull, 0x4260000000000396ull, 0x4270000000000048ull, 0x4270000000000049ull, 0x427000000000006aull,
0x427000000000006bull, 0x42700000000000b7ull, 0x42700000000000b8ull, 0x4270000000000195ull, 0x4270000000000196ull, 0x42700000000001ebull, 0x42700000000001ecull, 0x4270000000000214ull,
0x4270000000000215ull, 0x4280000000000014ull, 0x4280000000000015ull, 0x4280000000000037ull, 0x4280000000000038ull, 0x4280000000000048ull, 0x4280000000000049ull, 0x428000000000006aull,
0x428000000000006bull, 0x4280000000000095ull, 0x4280000000000096ull, 0x42800000000001ebull, 0x42800000000001ecull, 0x4290000000000008ull, 0x4290000000000009ull, 0x4290000000000014ull,
0x4290000000000015ull, 0x4290000000000016ull, 0x4290000000000037ull, 0x4290000000000038ull, 0x429000000000006aull, 0x429000000000006bull, 0x42900000000000ebull, 0x42900000000000ecull,
0x42a0000000000008ull, 0x42a0000000000009ull, 0x42a0000000000014ull, 0x42a0000000000015ull, 0x42a0000000000016ull, 0x42a0000000000017ull, 0x42a0000000000018ull, 0x42a000000000002aull,
0x42a000000000002bull, 0x42a000000000006bull, 0x42a000000000006cull, 0x42b000000000000aull, 0x42b000000000000bull, 0x42b0000000000014ull, 0x42b0000000000015ull, 0x42b0000000000016ull,
0x42b0000000000019ull, 0x42b000000000001aull, 0x42b000000000002bull, 0x42b000000000002cull, 0x42b0000000000066ull, 0x42b0000000000067ull, 0x42c0000000000005ull, 0x42c0000000000006ull,
0x42c000000000000aull, 0x42c000000000000bull, 0x42c000000000000cull, 0x42c0000000000014ull, 0x42c0000000000015ull, 0x42c0000000000019ull, 0x42c000000000001aull, 0x42c0000000000026ull,
0x42c0000000000027ull, 0x42d0000000000002ull, 0x42d0000000000003ull, 0x42d0000000000004ull, 0x42d0000000000005ull, 0x42d0000000000006ull, 0x42d0000000000007ull, 0x42d000000000000bull,
0x42d000000000000cull, 0x42d0000000000019ull, 0x42d000000000001aull, 0x42e0000000000000ull, 0x42e0000000000001ull, 0x42e0000000000003ull, 0x42e0000000000004ull, 0x42e0000000000005ull,
0x42e0000000000006ull, 0x42e0000000000007ull, 0x42e0000000000009ull, 0x42e000000000000aull, 0x42f0000000000000ull, 0x42f0000000000001ull, 0x42f0000000000002ull, 0x42f0000000000006ull,
0x42f0000000000007ull, 0x4300000000000000ull, 0x4300000000000001ull, 0x4300000000000002ull, 0x4300000000000003ull, 0x4310000000000000ull, 0x4310000000000001ull, 0x4310000000000017ull,
0x4310000000000018ull, 0x4310000000000019ull, 0x4320000000000003ull, 0x4320000000000004ull, 0x4320000000000005ull, 0x4330000000000003ull, 0x4330000000000004ull, 0x4330000000000005ull,
0x4340000000000000ull, 0x4340000000000003ull, 0x4340000000000004ull, 0x4350000000000000ull, 0x4350000000000001ull, 0x4350000000000003ull, 0x4350000000000004ull, 0x4350000000000005ull,
0x4360000000000000ull, 0x4360000000000001ull, 0x4360000000000003ull, 0x4360000000000004ull, 0x4360000000000005ull, 0x4370000000000000ull, 0x4370000000000001ull, 0x437000000000000aull,
0x437000000000000bull, 0x4380000000000000ull, 0x4380000000000001ull, 0x4380000000000007ull, 0x4380000000000023ull, 0x4380000000000024ull, 0x4390000000000000ull, 0x4390000000000001ull,
0x4390000000000002ull, 0x4390000000000003ull, 0x4390000000000005ull, 0x4390000000000006ull, 0x4390000000000013ull, 0x4390000000000014ull, 0x4390000000000033ull, 0x43a0000000000000ull,
0x43a0000000000001ull, 0x43a0000000000009ull, 0x43a000000000000aull, 0x43a000000000000bull, 0x43a000000000001bull, 0x43a000000000001cull, 0x43a000000000002bull, 0x43b0000000000000ull,
0x43b0000000000001ull, 0x43b0000000000007ull, 0x43b0000000000008ull, 0x43b0000000000017ull, 0x43b0000000000018ull, 0x43b000000000002full, 0x43b000000000005aull, 0x43b00000000000a8ull,
0x43c0000000000000ull, 0x43c0000000000008ull, 0x43c0000000000009ull, 0x43c0000000000019ull, 0x43c000000000001aull, 0x43c000000000002dull, 0x43c000000000006dull, 0x43c000000000006eull,
0x43c0000000000094ull, 0x43c0000000000095ull, 0x43d0000000000000ull, 0x43d0000000000008ull, 0x43d0000000000018ull, 0x43d0000000000019ull, 0x43d000000000002eull, 0x43d0000000000113ull,
0x43d0000000000114ull, 0x43d0000000000127ull, 0x43e0000000000002ull, 0x43e0000000000006ull, 0x43e0000000000019ull, 0x43e000000000002dull, 0x43e000000000002eull, 0x43e00000000000d4ull,
0x43f000000000000eull, 0x43f000000000000full, 0x43f0000000000038ull, 0x43f0000000000057ull, 0x43f0000000000058ull, 0x43f00000000000aaull, 0x43f00000000000abull, 0x43f000000000020cull,
0x43f000000000020dull, 0x43f000000000029full, 0x440000000000001eull, 0x4400000000000028ull, 0x4400000000000029ull, 0x44000000000000aaull, 0x44000000000000abull, 0x4400000000000108ull,
0x4400000000000109ull, 0x4400000000000132ull, 0x4400000000000401ull, 0x4410000000000011ull, 0x4410000000000028ull, 0x4410000000000029ull, 0x4410000000000035ull, 0x4410000000000036ull,
0x44100000000000d9ull, 0x44100000000000daull, 0x44100000000004b2ull, 0x4410000000000614ull, 0x4420000000000011ull, 0x44200000000000f1ull, 0x442000000000050aull, 0x442000000000050bull,
0x44200000000005bbull, 0x44200000000005bcull, 0x4420000000000accull, 0x4420000000000acdull, 0x4420000000001863ull, 0x4420000000001864ull, 0x4430000000000049ull, 0x44300000000000b9ull,
0x4430000000000229ull, 0x443000000000022aull, 0x4430000000000282ull, 0x44300000000005bbull, 0x44300000000005bcull, 0x4430000000001d74ull, 0x4430000000001d75ull, 0x4440000000000065ull,
0x444000000000009dull, 0x44400000000000b9ull, 0x44400000000003f2ull, 0x44400000000003f3ull, 0x4440000000000844ull, 0x4440000000001aecull, 0x445000000000019dull, 0x445000000000019eull,
0x445000000000030eull, 0x4450000000000ceeull, 0x4450000000001642ull, 0x44500000000063d1ull, 0x44500000000063d2ull, 0x44500000000094feull, 0x4460000000000073ull, 0x4460000000000438ull,
0x4460000000000439ull, 0x4460000000000f43ull, 0x44600000000013edull, 0x4460000000001642ull, 0x44600000000049f7ull, 0x44700000000001c0ull, 0x44700000000001c1ull, 0x44700000000002ebull,
0x447000000000106dull, 0x447000000000106eull, 0x44700000000012c2ull, 0x44700000000012c3ull, 0x4470000000006f7aull, 0x4470000000006f7bull, 0x4470000000008955ull, 0x4480000000000084ull,
0x4480000000000085ull, 0x44800000000001c0ull, 0x44800000000001c1ull, 0x44800000000002ebull, 0x4480000000000427ull, 0x448000000000106dull, 0x448000000000106eull, 0x4480000000004fcbull,
0x4480000000004fccull, 0x4490000000000a41ull, 0x4490000000000a42ull, 0x44900000000018eeull, 0x44900000000018efull, 0x4490000000002045ull, 0x4490000000003ff4ull, 0x449000000000e862ull,
0x449000000001419aull, 0x449000000001419bull, 0x44a0000000000601ull, 0x44a0000000001d2full, 0x44a0000000003ff4ull, 0x44a000000000747cull, 0x44a0000000008453ull, 0x44a0000000008454ull,
0x44a000000001ea08ull, 0x44a000000001ea09ull, 0x44b0000000000601ull, 0x44b0000000000bccull, 0x44b0000000000bcdull, 0x44b0000000001763ull, 0x44b0000000001764ull, 0x44b0000000005a38ull,
0x44b0000000023e3full, 0x44b0000000023e40ull, 0x44b000000002e6adull, 0x44b000000002e6aeull, 0x44c000000000675aull, 0x44c0000000009175ull, 0x44c0000000009176ull, 0x44c000000002685bull,
0x44c000000002bc92ull, 0x44c0000000053930ull, 0x44c00000000bd77full, 0x44d00000000060c9ull, 0x44d0000000009806ull, 0x44d0000000009807ull, 0x44d000000000fff0ull, 0x44d000000000fff1ull,
0x44d0000000012a0cull, 0x44d000000002bc92ull, 0x44d00000000e541dull, 0x44e00000000060c9ull, 0x44e0000000006411ull, 0x44e0000000006412ull, 0x44e00000000094beull, 0x44e000000001c933ull,
0x44e000000001c934ull, 0x44e000000003fae1ull, 0x44e00000000d15ceull, 0x44f0000000022dd5ull, 0x44f000000002f718ull, 0x44f0000000035bb9ull, 0x44f0000000035bbaull, 0x44f00000000db4f5ull,
0x44f00000000db4f6ull, 0x44f000000012e193ull, 0x44f000000012e194ull, 0x44f00000001bfc80ull, 0x44f00000001bfc81ull, 0x450000000000e2adull, 0x450000000000e2aeull, 0x450000000001474full,
0x450000000005f208ull, 0x450000000005f209ull, 0x45000000000b1ea6ull, 0x45000000000b1ea7ull, 0x45000000003a690dull, 0x45000000003ef683ull, 0x45000000003ef684ull, 0x4510000000006f6aull,
0x4510000000006f6bull, 0x451000000001ba92ull, 0x451000000005f208ull, 0x451000000005f209ull, 0x4510000000073d30ull, 0x451000000009d37full, 0x451000000028ec0bull, 0x451000000028ec0cull,
0x4520000000006f6aull, 0x4520000000006f6bull, 0x452000000000a90cull, 0x45200000000180f0ull, 0x45200000000180f1ull, 0x452000000001ba92ull, 0x452000000033f147ull, 0x452000000033f148ull,
0x4520000000456e49ull, 0x4530000000006f6aull, 0x4530000000006f6bull, 0x4530000000047be1ull, 0x45300000000c94ceull, 0x45300000002e6ea9ull, 0x45300000002e6eaaull, 0x4530000000456e49ull,
0x45300000007e72c4ull, 0x4540000000031b39ull, 0x4540000000031b3aull, 0x45400000000df575ull, 0x45400000000df576ull, 0x4540000000312ff8ull, 0x4540000000312ff9ull, 0x4540000000482f98ull,
0x45400000010df31full, 0x45400000012a755cull, 0x45400000012a755dull, 0x455000000005d1c8ull, 0x455000000005d1c9ull, 0x45500000000b3ee6ull, 0x45500000000b3ee7ull, 0x45500000002fcf51ull,
0x455000000049903full, 0x4550000000499040ull, 0x4550000000c632f1ull, 0x4550000000c632f2ull, 0x455000000172358aull, 0x45600000000b3ee6ull, 0x45600000000b3ee7ull, 0x4560000000239f2dull,
0x4560000000239f2eull, 0x45600000002fcf51ull, 0x45600000009411bcull, 0x4560000000c632f1ull, 0x4560000000c632f2ull, 0x45600000045b4467ull, 0x45700000003697b6ull, 0x45700000003697b7ull,
0x457000000042c7daull, 0x45700000010323a3ull, 0x45700000013544d8ull, 0x45700000013544d9ull, 0x4570000001a456bfull, 0x4570000001a456c0ull, 0x45700000037d2099ull, 0x458000000001c2a2ull,
0x45800000002d1b72ull, 0x4580000000cb9aafull, 0x4580000000cb9ab0ull, 0x45800000013544d8ull, 0x45800000013544d9ull, 0x45800000016ccdccull, 0x4580000003ec3280ull, 0x45900000002d1b72ull,
0x459000000096c59bull, 0x45900000016ccdccull, 0x4590000003b4a98cull, 0x4590000003b4a98dull, 0x4590000003ec3280ull, 0x4590000017093452ull, 0x45a00000002d1b72ull, 0x45a000000101c9b3ull,
0x45a000000101c9b4ull, 0x45a0000001369ec8ull, 0x45a0000004f45be6ull, 0x45a0000004f45be7ull, 0x45a0000008b372f4ull, 0x45a0000008b372f5ull, 0x45a000001241f3ddull, 0x45a000001241f3deull,
0x45b00000001203f0ull, 0x45b0000000b1dd1dull, 0x45b0000005943513ull, 0x45b0000005943514ull, 0x45b0000006d3e76dull, 0x45b0000006d3e76eull, 0x45b000001d47b014ull, 0x45b00000220ef088ull,
0x45b00000220ef089ull, 0x45c0000000f43df2ull, 0x45c0000000f43df3ull, 0x45c0000001442a89ull, 0x45c0000005943513ull, 0x45c0000005943514ull, 0x45c0000005e421aaull, 0x45c000000683fad7ull,
0x45c00000156131beull, 0x45c00000156131bfull, 0x45d000000268c561ull, 0x45d0000002b8b1f7ull, 0x45d0000002b8b1f8ull, 0x45d000001bb81123ull, 0x45d000001bb81124ull, 0x45d00000239e8f79ull,
0x45d0000039c26b89ull, 0x45d0000072b7e273ull, 0x45e0000000ab173cull, 0x45e0000000ab173dull, 0x45e000000268c561ull, 0x45e000000476601cull, 0x45e00000188ca171ull, 0x45e0000047ffc943ull,
0x45e0000047ffc944ull, 0x45e00000647a84b8ull, 0x45e00000647a84b9ull, 0x45f0000001b1e49aull, 0x45f000000268c561ull, 0x45f00000036f92beull, 0x45f00000036f92bfull, 0x45f0000007f1bc65ull,
0x45f000001303aa6dull, 0x45f00000aa11889bull, 0x460000000ab637e7ull, 0x46000000103f2eebull, 0x460000002c52f62full, 0x460000002c52f630ull, 0x46000000802757ccull, 0x46000000802757cdull,
0x4600000215ddca84ull, 0x46000002241b283eull, 0x46000002241b283full, 0x461000000c1875a8ull, 0x461000000edcf12aull, 0x46100000103f2eebull, 0x461000009c3b1f11ull, 0x46100001360d78c1ull,
0x4610000303eb7a01ull, 0x4610000303eb7a02ull, 0x462000000cc99488ull, 0x462000000cc99489ull, 0x462000000e2bd249ull, 0x462000000e2bd24aull, 0x46200000333e2af4ull, 0x46200000333e2af5ull,
0x46200000793c2307ull, 0x46200000793c2308ull, 0x46200000c6254fdfull, 0x46200000c6254fe0ull, 0x4620000373d3a2e3ull, 0x463000000cc99488ull, 0x463000000cc99489ull, 0x463000009fb0b973ull,
0x463000009fb0b974ull, 0x46300001e50864f0ull, 0x46300001e50864f1ull, 0x4630000254f08dd2ull, 0x46300007015247a9ull, 0x46300007015247aaull, 0x46300007e122996cull, 0x46300007e122996dull,
0x464000002003dfbeull, 0x464000002003dfbfull, 0x464000008c766e3dull, 0x464000008c766e3eull, 0x464000015596da68ull, 0x46400002e462185aull, 0x46400002e462185bull, 0x464000101b02f80aull,
0x464000101b02f80bull, 0x464000108aeb20ecull, 0x465000001666ba23ull, 0x465000001666ba24ull, 0x46500000961393d8ull, 0x46500000961393d9ull, 0x46500000d5ea00b3ull, 0x46500002e462185aull,
0x46500002e462185bull, 0x46500003640ef20full, 0x46500003640ef210ull, 0x4650000bfe12c8bbull, 0x4650000bfe12c8bcull, 0x466000001666ba23ull, 0x466000001666ba24ull, 0x46600000961393d8ull,
0x46600000961393d9ull, 0x46600000d5ea00b3ull, 0x46600002e462185aull, 0x46600002e462185bull, 0x4660000bfe12c8bbull, 0x4660000bfe12c8bcull, 0x4660000e0c8ae063ull, 0x46700001fd1142f4ull,
0x467000023ce7afceull, 0x467000023ce7afcfull, 0x467000042392389full, 0x4670000abee2a877ull, 0x46700031937d5024ull, 0x467000362055a854ull, 0x467000362055a855ull, 0x4680000129a734f9ull,
0x468000031051bdc9ull, 0x468000031051bdcaull, 0x46800005ca665495ull, 0x46800009180e8c81ull, 0x4680001c825be057ull, 0x4680001c825be058ull, 0x4680004b31771821ull, 0x46900000bff22dfbull,
0x46900000bff22dfcull, 0x469000037a06c4c7ull, 0x469000069dd06290ull, 0x4690000844a47e86ull, 0x469000295158c456ull, 0x4690003e627a3422ull, 0x4690003e627a3423ull, 0x46a000070785698dull,
0x46a000070785698eull, 0x46a00007daef7788ull, 0x46a00007daef7789ull, 0x46a0001861499a70ull, 0x46a0001861499a71ull, 0x46a0004f52895e08ull, 0x46a00133c5730a7dull, 0x46a00133c5730a7eull,
0x46a001a1a7f291acull, 0x46a001a1a7f291adull, 0x46b000101e1c88fcull, 0x46b000101e1c88fdull, 0x46b0001087d18ffaull, 0x46b0002b61e1e749ull, 0x46b0002b61e1e74aull, 0x46b0003c51f1112full,
0x46b0007132a7b1d3ull, 0x46b000a823e7756aull, 0x46b000a823e7756bull, 0x46c00002e5eee0d3ull, 0x46c00002e5eee0d4ull, 0x46c0000bfc860042ull, 0x46c0000bfc860043ull, 0x46c00021e195c0ddull,
0x46c0002b61e1e749ull, 0x46c0002b61e1e74aull, 0x46c00045d23d379bull, 0x46c00045d23d379cull, 0x46c000edf4ad3ff4ull, 0x46d00014a96818b4ull, 0x46d0002b61e1e749ull, 0x46d0002b61e1e74aull,
0x46d000530a6adfc4ull, 0x46d000530a6adfc5ull, 0x46d0012c55b00704ull, 0x46d0012c55b00705ull, 0x46d001a917b59525ull, 0x46d001a917b59526ull, 0x46d00466225a29cdull, 0x46e00000d5239c76ull,
0x46e00000d5239c77ull, 0x46e0000e0d51449full, 0x46e0000e0d5144a0ull, 0x46e0006d7ac63016ull, 0x46e0006d7ac63017ull, 0x46e000abdbc8f727ull, 0x46e0012c55b00704ull, 0x46e0012c55b00705ull,
0x46e003652e8c0a12ull, 0x46f0000e0d51449full, 0x46f0000e0d5144a0ull, 0x46f000308bde1232ull, 0x46f0003727f4e646ull, 0x46f0003727f4e647ull, 0x46f000abdbc8f727ull, 0x46f0010b493de29eull,
0x46f003e5a87319efull, 0x46f003e5a87319f0ull, 0x4700013afff85859ull, 0x4700013afff8585aull, 0x4700019a6d6d43d0ull, 0x4700019a6d6d43d1ull, 0x4700054251d4a365ull, 0x470007fba497b650ull,
0x470009584df93fc5ull, 0x470009584df93fc6ull, 0x4700269771343c69ull, 0x4700269771343c6aull, 0x47100074cfea58c1ull, 0x471000a486a4ce7cull, 0x471000a486a4ce7dull, 0x4710019a6d6d43d0ull,
0x4710019a6d6d43d1ull, 0x471002f716cecd46ull, 0x471010a816c7feeeull, 0x471010a816c7feefull, 0x47101f47a8657d40ull, 0x47101f47a8657d41ull, 0x47200029934093d2ull, 0x47200029934093d3ull,
0x47200074cfea58c1ull, 0x472000efc34e936bull, 0x4720041cb451b855ull, 0x4720041cb451b856ull, 0x4720144ffb2f5e83ull, 0x47201b9fc3fe1dacull, 0x47300074cfea58c1ull, 0x4730012d3d00b0c0ull,
0x473001a83064eb6aull, 0x4730041cb451b855ull, 0x4730041cb451b856ull, 0x4730055dd7c3f298ull, 0x473007e01ea8671dull, 0x474001a83064eb6aull, 0x474002e953d725acull, 0x474002e953d725adull,
0x4740041cb451b855ull, 0x4740041cb451b856ull, 0x47400e0a49f43b36ull, 0x47400e0a49f43b37ull, 0x474021e5753940f8ull, 0x474021e5753940f9ull, 0x47402bd30adbc3d9ull, 0x47402bd30adbc3daull,
0x475004c42786a943ull, 0x475004c42786a944ull, 0x47500879cee5b071ull, 0x47500879cee5b072ull, 0x47500e0a49f43b36ull, 0x47500e0a49f43b37ull, 0x4750130114c57ca7ull, 0x47501ceeaa67ff88ull,
0x475021e5753940f8ull, 0x475021e5753940f9ull, 0x476004c42786a943ull, 0x476004c42786a944ull, 0x476005b1915e6b0full, 0x4760078c650deea6ull, 0x4760130114c57ca7ull, 0x47601ceeaa67ff88ull,
0x47602b2b97a6d2ebull, 0x47602b2b97a6d2ecull, 0x47700e5e038eb3adull, 0x47700e5e038eb3aeull, 0x47701ceeaa67ff88ull, 0x47702191bb9ec881ull, 0x47702191bb9ec882ull, 0x477081e80d89a91cull,
0x477081e80d89a91dull, 0x477086ded85aea8dull, 0x4771c4af6233ab9cull, 0x4780132af192b8e2ull, 0x4780132af192b8e3ull, 0x47801cc4cd9ac34cull, 0x47801cc4cd9ac34dull, 0x47804ceff690339aull,
0x478086ded85aea8dull, 0x4780bbd6ef54600full, 0x4780bbd6ef546010ull, 0x47815abf3440c097ull, 0x479015916894bb7dull, 0x47901a5e5698c0b2ull, 0x479069e767758f13ull, 0x479069e767758f14ull,
0x47909edf7e6f0496ull, 0x4790bbd6ef54600full, 0x4790bbd6ef546010ull, 0x479125c71d474b14ull, 0x479125c71d474b15ull, 0x47a040efa3862695ull, 0x47a040efa3862696ull, 0x47a0c7d7425e6d14ull,
0x47a125c71d474b14ull, 0x47a125c71d474b15ull, 0x47a2f46cdb9ad583ull, 0x47a32964f2944b05ull, 0x47a32964f2944b06ull, 0x47a9343e727b4ad8ull, 0x47a9343e727b4ad9ull, 0x47b0037bfd9f09d8ull,
0x47b0037bfd9f09d9ull, 0x47b02c73c18e7256ull, 0x47b02c73c18e7257ull, 0x47b1f29df0f4558aull, 0x47b1f29df0f4558bull, 0x47b32964f2944b05ull, 0x47b32964f2944b06ull, 0x47b42b33dd3acafeull,
0x47b730a09d2e4ae7ull, 0x47b730a09d2e4ae8ull, 0x47c00db9ee9ae3f8ull, 0x47c02235d0929837ull, 0x47c28e0171c45048ull, 0x47c38fd05c6ad040ull, 0x47c38fd05c6ad041ull, 0x47c42b33dd3acafeull,
0x47c62ed1b287caefull, 0x47d02235d0929837ull, 0x47d07f447a745cc5ull, 0x47d089826b7036e4ull, 0x47d089826b7036e5ull, 0x47d1bf683c0912edull, 0x47d62ed1b287caefull, 0x47df429cb67eb075ull,
0x47df429cb67eb076ull, 0x47e02235d0929837ull, 0x47e089826b7036e4ull, 0x47e089826b7036e5ull, 0x47e1581ba12b743full, 0x47e1581ba12b7440ull, 0x47e8326f87d4cae0ull, 0x47ea37cfbf2ffdb6ull,
0x47ef429cb67eb075ull, 0x47ef429cb67eb076ull, 0x47f225d3a5df9828ull, 0x47f2db4299a8c0edull, 0x47f2db4299a8c0eeull, 0x47f3428f34865f9bull, 0x47fa37cfbf2ffdb6ull, 0x47fd3e1db02a9712ull,
0x47ff429cb67eb075ull, 0x47ff429cb67eb076ull, 0x480219af1d6a1a96ull, 0x480219af1d6a1a97ull, 0x480225d3a5df9828ull, 0x48040422b0c505f2ull, 0x480bbaf6b7ad4a64ull, 0x480d3e1db02a9712ull,
0x480f429cb67eb075ull, 0x480f429cb67eb076ull, 0x4810a2acad624b7aull, 0x481225d3a5df9828ull, 0x481bbaf6b7ad4a64ull, 0x481c7c8a33ebf0bbull, 0x481d4446075c4933ull, 0x481d4446075c4934ull,
0x481f429cb67eb075ull, 0x481f429cb67eb076ull, 0x4820a2acad624b7aull, 0x482bc11f0edefc85ull, 0x482bc11f0edefc86ull, 0x482c1bc075cc9d8full, 0x482c1bc075cc9d90ull, 0x482c7c8a33ebf0bbull,
0x482f429cb67eb075ull, 0x482f429cb67eb076ull, 0x483041e2ef42f84eull, 0x483041e2ef42f84full, 0x4830a2acad624b7aull, 0x4831b5a3f0eba1aaull, 0x4838a4619ed6f443ull, 0x483bc11f0edefc85ull,
0x483bc11f0edefc86ull, 0x483fa366749e03a1ull, 0x484041e2ef42f84eull, 0x484041e2ef42f84full, 0x484154da32cc4e7eull, 0x484154da32cc4e7full, 0x4841b5a3f0eba1aaull, 0x4842e767221e3e7full,
0x484bc11f0edefc85ull, 0x484bc11f0edefc86ull, 0x484d4446075c4933ull, 0x484d4446075c4934ull, 0x485041e2ef42f84eull, 0x485041e2ef42f84full, 0x485103766b819ea5ull, 0x485103766b819ea6ull,
0x4851b5a3f0eba1aaull, 0x485a2fac2b421f53ull, 0x485a2fac2b421f54ull, 0x485b605550bfa95aull, 0x485e52d755c22027ull, 0x486041e2ef42f84eull, 0x486041e2ef42f84full, 0x486103766b819ea5ull,
0x486103766b819ea6ull, 0x4861b5a3f0eba1aaull, 0x486ccfb05d44d379ull, 0x486e9d15277d07beull, 0x486fcc1858435b8dull, 0x486fcc1858435b8eull, 0x487103766b819ea5ull, 0x487103766b819ea6ull,
0x4871b5a3f0eba1aaull, 0x4875c2432f0736e9ull, 0x4876230ced268a14ull, 0x4876230ced268a15ull, 0x487c96c5886f3d1eull, 0x487c96c5886f3d1full, 0x487f6b4e9a240862ull, 0x4882e767221e3e7full,
0x4885617970e7e3bdull, 0x4885617970e7e3beull, 0x4885c2432f0736e9ull, 0x4886230ced268a14ull, 0x4886230ced268a15ull, 0x4887456a27848397ull, 0x488d875de3876888ull, 0x488d875de3876889ull,
0x48908217425512c4ull, 0x48908217425512c5ull, 0x48937d88ba4b43e4ull, 0x4895617970e7e3bdull, 0x4895617970e7e3beull, 0x4896230ced268a14ull, 0x4896230ced268a15ull, 0x4897456a27848397ull,
0x489cf13c4b5a6323ull, 0x489cf13c4b5a6324ull, 0x48a08217425512c4ull, 0x48a08217425512c5ull, 0x48a3529217bdce6cull, 0x48a3529217bdce6dull, 0x48a37d88ba4b43e4ull, 0x48ac24cc56175490ull,
0x48acf13c4b5a6323ull, 0x48acf13c4b5a6324ull, 0x48b0209bd8d61459ull, 0x48b0209bd8d6145aull, 0x48b08217425512c4ull, 0x48b08217425512c5ull, 0x48b37d88ba4b43e4ull, 0x48bcf13c4b5a6323ull,
0x48bcf13c4b5a6324ull, 0x48be947d6d60bd0cull, 0x48be947d6d60bd0dull, 0x48bfb80794a28d49ull, 0x48c08217425512c4ull, 0x48c08217425512c5ull, 0x48c10dd7a301db67ull, 0x48c10dd7a301db68ull,
0x48c78b4a57dae7e8ull, 0x48c78b4a57dae7e9ull, 0x48c811da1cc7922aull, 0x48c811da1cc7922bull, 0x48c85ceae8de14ddull, 0x48cf60ed62a3cba0ull, 0x48d08217425512c4ull, 0x48d08217425512c5ull,
0x48d10dd7a301db67ull, 0x48d10dd7a301db68ull, 0x48d406b0cd17fd56ull, 0x48d406b0cd17fd57ull, 0x48d811da1cc7922aull, 0x48d811da1cc7922bull, 0x48d85ceae8de14ddull, 0x48de4e9d3d0a58bbull,
0x48e406b0cd17fd56ull, 0x48e406b0cd17fd57ull, 0x48e67661e46165d3ull, 0x48e811da1cc7922aull, 0x48e811da1cc7922bull, 0x48e85ceae8de14ddull, 0x48e9892e19381fa7ull, 0x48ee4e9d3d0a58bbull,
0x48f26b3894b1d0ffull, 0x48f406b0cd17fd56ull, 0x48f406b0cd17fd57ull, 0x48f811da1cc7922aull, 0x48f811da1cc7922bull, 0x48fb55c412f436ccull, 0x48fe4e9d3d0a58bbull, 0x48ff41e1bf48b040ull,
0x49026b3894b1d0ffull, 0x490406b0cd17fd56ull, 0x490406b0cd17fd57ull, 0x490811da1cc7922aull, 0x490811da1cc7922bull, 0x490b55c412f436ccull, 0x490cd230a7ff47c3ull, 0x490cd230a7ff47c4ull,
0x490f41e1bf48b040ull, 0x4910a3bb33903d55ull, 0x491480530e372919ull, 0x491771694f768430ull, 0x4919d9577de925d4ull, 0x4919d9577de925d5ull, 0x491bd7293cea2966ull, 0x491bd7293cea2967ull,
0x491cd230a7ff47c3ull, 0x491cd230a7ff47c4ull, 0x4920a3bb33903d55ull, 0x4921159a8bd8a23full, 0x4921159a8bd8a240ull, 0x49226b3894b1d0ffull, 0x4929d9577de925d4ull, 0x4929d9577de925d5ull,
0x492bf0fe43bbbfacull, 0x492cd230a7ff47c3ull, 0x492cd230a7ff47c4ull, 0x49301e74952ee74eull, 0x49301e74952ee74full, 0x4931159a8bd8a23full, 0x4931159a8bd8a240ull, 0x49326b3894b1d0ffull,
0x4933892d178d6e28ull, 0x49372e1b6c36c855ull, 0x49372e1b6c36c856ull, 0x4939677825a0c0eaull, 0x49426b3894b1d0ffull, 0x4943892d178d6e28ull, 0x4949677825a0c0eaull, 0x4949e30b20f59e62ull,
0x4949e30b20f59e63ull, 0x494dc9569ea902b4ull, 0x494dc9569ea902b5ull, 0x49530d9a1c3890afull, 0x49530d9a1c3890b0ull, 0x4954f4beb2cccfc1ull, 0x4955e9585d2948f4ull, 0x4955e9585d2948f5ull,
0x4959174ec0efbabcull, 0x4959174ec0efbabdull, 0x4959677825a0c0eaull, 0x495dc9569ea902b4ull, 0x495dc9569ea902b5ull, 0x4961769eea5557cbull, 0x4961769eea5557ccull, 0x49630d9a1c3890afull,
0x49630d9a1c3890b0ull, 0x4965e9585d2948f4ull, 0x4965e9585d2948f5ull, 0x496c956e896732b2ull, 0x496ec55666d8f9ecull, 0x496ec55666d8f9edull, 0x49728f9a38209513ull, 0x49728f9a38209514ull,
0x49730d9a1c3890afull, 0x49730d9a1c3890b0ull, 0x497ad55746191d0cull, 0x497ad55746191d0dull, 0x497c43366691792full, 0x497ec55666d8f9ecull, 0x497ec55666d8f9edull, 0x497fc1562f08f124ull,
0x497fc1562f08f125ull, 0x4981769eea5557cbull, 0x4981769eea5557ccull, 0x49830d9a1c3890afull, 0x49830d9a1c3890b0ull, 0x498546f6d5a28944ull, 0x498c43366691792full, 0x498d4b56ba910718ull,
0x498d4b56ba910719ull, 0x498fc1562f08f124ull, 0x498fc1562f08f125ull, 0x49930d9a1c3890afull, 0x49930d9a1c3890b0ull, 0x499546f6d5a28944ull, 0x4996f178b128d6deull, 0x499c1a1a55269c6dull,
0x499c1a1a55269c6eull, 0x499e865674ccfc1eull, 0x499e865674ccfc1full, 0x499fc1562f08f124ull, 0x499fc1562f08f125ull, 0x49a2701a3f1a962cull, 0x49a2701a3f1a962dull, 0x49a546f6d5a28944ull,
0x49a6f178b128d6deull, 0x49a8c9f84882c667ull, 0x49ac1a1a55269c6dull, 0x49ac1a1a55269c6eull, 0x49afc1562f08f124ull, 0x49afc1562f08f125ull, 0x49b1351a84dea126ull, 0x49b1351a84dea127ull,
0x49b2701a3f1a962cull, 0x49b2701a3f1a962dull, 0x49b29e17faee381bull, 0x49b29e17faee381cull, 0x49bec2f92fdaed96ull, 0x49bed516635bf960ull, 0x49bfc1562f08f124ull, 0x49bfc1562f08f125ull,
0x49c2beda2da9936eull, 0x49c87b3859f3c925ull, 0x49c87b3859f3c926ull, 0x49c9713b7a724b45ull, 0x49ca04f802bebb6dull, 0x49ca98b48b0b2b95ull, 0x49ccadd6dd730c95ull, 0x49ccadd6dd730c96ull,
0x49d2beda2da9936eull, 0x49d87b3859f3c925ull, 0x49d87b3859f3c926ull, 0x49da04f802bebb6dull, 0x49da98b48b0b2b95ull, 0x49dcadd6dd730c95ull, 0x49dcadd6dd730c96ull, 0x49e2beda2da9936eull,
0x49e4d8296f693526ull, 0x49ea04f802bebb6dull, 0x49ea4ed646e4f381ull, 0x49ed2aeee55e2e01ull, 0x49f4d8296f693526ull, 0x49f76e90b913f849ull, 0x49f76e90b913f84aull, 0x49fa04f802bebb6dull,
0x49fa29e724d1d777ull, 0x49fb764f577dd3d1ull, 0x4a04d8296f693526ull, 0x4a0a04f802bebb6dull, 0x4a0a176f93c84972ull, 0x4a0abda3ad1e479full, 0x4a0ca49b14ee4593ull, 0x4a138857e6517013ull,
0x4a1a04f802bebb6dull, 0x4a1a0e33cb43826full, 0x4a1a0e33cb438270ull, 0x4a1a614dd7ee8186ull, 0x4a1ca49b14ee4593ull, 0x4a238857e6517013ull, 0x4a29a8a22d8ef554ull, 0x4a2a04f802bebb6dull,
0x4a2a3322ed569e79ull, 0x4a2a3322ed569e7aull, 0x4a2b764f577dd3d1ull, 0x4a338857e6517013ull, 0x4a339acf775afe18ull, 0x4a36c6a7f48815c0ull, 0x4a39a8a22d8ef554ull, 0x4a3a04f802bebb6dull,
0x4a3a8f78c2866492ull, 0x4a3a8f78c2866493ull, 0x4a433e79a22b37ffull, 0x4a438857e6517013ull, 0x4a46cfe3bd0cdcc2ull, 0x4a46cfe3bd0cdcc3ull, 0x4a4a04f802bebb6dull, 0x4a4a8f78c2866492ull,
0x4a4a8f78c2866493ull, 0x4a4eebabe0957af3ull, 0x4a5009655c795954ull, 0x4a5009655c795955ull, 0x4a51e92fdf361d3cull, 0x4a51e92fdf361d3dull, 0x4a538857e6517013ull, 0x4a593a01e3737583ull,
0x4a5dc48d0838433dull, 0x4a5eebabe0957af3ull, 0x4a6009655c795954ull, 0x4a6009655c795955ull, 0x4a61e92fdf361d3cull, 0x4a61e92fdf361d3dull, 0x4a6bb6979ae39c48ull, 0x4a6bb6979ae39c49ull,
0x4a6dc48d0838433dull, 0x4a6eebabe0957af3ull, 0x4a70af82e7c06d5bull, 0x4a7bb6979ae39c48ull, 0x4a7bb6979ae39c49ull, 0x4a7dc48d0838433dull, 0x4a7eebabe0957af3ull, 0x4a80af82e7c06d5bull,
0x4a859636c5972ce1ull, 0x4a87cd97642af427ull, 0x4a8e581c7466df18ull, 0x4a8eebabe0957af3ull, 0x4a9a40f1531653eaull, 0x4a9c09dec3ac6facull, 0x4a9ea1e42a7e2d05ull, 0x4a9ea1e42a7e2d06ull,
0x4a9eebabe0957af3ull, 0x4aa70bdd0d64753full, 0x4aa70bdd0d647540ull, 0x4aac964e99d5e76eull, 0x4aac964e99d5e76full, 0x4aad7ac55220f54full, 0x4aad7ac55220f550ull, 0x4aaeebabe0957af3ull,
0x4ab340d97ed7995cull, 0x4ab340d97ed7995dull, 0x4ab6061245105274ull, 0x4ab6784da135d964ull, 0x4ab6784da135d965ull, 0x4abeebabe0957af3ull, 0x4ac15b57b7912b6bull, 0x4ac2f711c8c04b6full,
0x4ac39680844cce1dull, 0x4ac39680844cce1eull, 0x4aceebabe0957af3ull, 0x4ad1862b3a4bc5cbull, 0x4ad1862b3a4bc5ccull, 0x4ad82381cc13532full, 0x4ad8f15ed4aae331ull, 0x4adeebabe0957af3ull,
0x4ae07e00954b41a2ull, 0x4ae07e00954b41a3ull, 0x4aeb8796d6546711ull, 0x4aebee855aa02f12ull, 0x4aeeebabe0957af3ull, 0x4afb8796d6546711ull, 0x4afd39a15b74f102ull, 0x4afd6d189d9ad502ull,
0x4afd6d189d9ad503ull, 0x4afeebabe0957af3ull, 0x4aff6fc13315bd07ull, 0x4aff6fc13315bd08ull, 0x4b06717746f2c93eull, 0x4b0772cb91b03d40ull, 0x4b0772cb91b03d41ull, 0x4b0d5f6be914b4b5ull,
0x4b0d5f6be914b4b6ull, 0x4b0eebabe0957af3ull, 0x4b0ff3d68595ff1cull, 0x4b137450c0fd7d5dull, 0x4b17f6e0e4307f55ull, 0x4b1aae9193c42218ull, 0x4b1aae9193c42219ull, 0x4b1d5f6be914b4b5ull,
0x4b1d5f6be914b4b6ull, 0x4b1eebabe0957af3ull, 0x4b23f866137dbf71ull, 0x4b23f866137dbf72ull, 0x4b251233c2076fc9ull, 0x4b292ffe50c97c28ull, 0x4b2aae9193c42218ull, 0x4b2aae9193c42219ull,
0x4b2d5f6be914b4b5ull, 0x4b2d5f6be914b4b6ull, 0x4b2eebabe0957af3ull, 0x4b33f866137dbf71ull, 0x4b33f866137dbf72ull, 0x4b3960f11861f4d2ull, 0x4b3c0dd518af7b8dull, 0x4b3c0dd518af7b8eull,
0x4b3caa63cefbf9f7ull, 0x4b3eebabe0957af3ull, 0x4b4253acb830bcdfull, 0x4b43f866137dbf71ull, 0x4b43f866137dbf72ull, 0x4b45c1d5847d1c83ull, 0x4b45c1d5847d1c84ull, 0x4b46522788e37cc2ull,
0x4b46522788e37cc3ull, 0x4b4960f11861f4d2ull, 0x4b4eebabe0957af3ull, 0x4b5253acb830bcdfull, 0x4b529bd5ba63ecfeull, 0x4b529bd5ba63ecffull, 0x4b5308b4d249779dull, 0x4b5308b4d249779eull,
0x4b5a50a259963ca6ull, 0x4b5eebabe0957af3ull, 0x4b5f7bfde4fbdb32ull, 0x4b6253acb830bcdfull, 0x4b63808d72e39b87ull, 0x4b63808d72e39b88ull, 0x4b65d7c895e64f19ull, 0x4b65d7c895e64f1aull,
0x4b68e7d54e964c08ull, 0x4b68e7d54e964c09ull, 0x4b6a50a259963ca6ull, 0x4b6fb92d5e7a7206ull, 0x4b6fb92d5e7a7207ull, 0x4b7108d5d557553cull, 0x4b73808d72e39b87ull, 0x4b73808d72e39b88ull,
0x4b73bc79c330ad7cull, 0x4b73bc79c330ad7dull, 0x4b78e7d54e964c08ull, 0x4b78e7d54e964c09ull, 0x4b7a14b609492ab1ull, 0x4b7ac87afa306090ull, 0x4b8108d5d557553cull, 0x4b83808d72e39b87ull,
0x4b83808d72e39b88ull, 0x4b83bc79c330ad7cull, 0x4b83bc79c330ad7dull, 0x4b88e7d54e964c08ull, 0x4b88e7d54e964c09ull, 0x4b8a32ac316fb3abull, 0x4b8a32ac316fb3acull, 0x4b8ac87afa306090ull,
0x4b90636a63eaa16aull, 0x4b90636a63eaa16bull, 0x4b9108d5d557553cull, 0x4b94165c3ba4486cull, 0x4b9a32ac316fb3abull, 0x4b9a32ac316fb3acull, 0x4b9d2a0ac3ec2157ull, 0x4b9d2a0ac3ec2158ull,
0x4ba0636a63eaa16aull, 0x4ba0636a63eaa16bull, 0x4ba254efe16241beull, 0x4ba254efe16241bfull, 0x4ba54b0b4aad2a8bull, 0x4baa32ac316fb3abull, 0x4baa32ac316fb3acull, 0x4bab5e49c2f10d74ull,
0x4bab5e49c2f10d75ull, 0x4bad8bbb90b5bfbdull, 0x4bad8bbb90b5bfbeull, 0x4bb0bd4cdc5e3c5aull, 0x4bb54b0b4aad2a8bull, 0x4bb6d99cd229a799ull, 0x4bb6d99cd229a79aull, 0x4bba32ac316fb3abull,
0x4bba32ac316fb3acull, 0x4bbb08f0094136b0ull, 0x4bbbdf33e112b9b4ull, 0x4bbbdf33e112b9b5ull, 0x4bc54b0b4aad2a8bull, 0x4bc6d99cd229a799ull, 0x4bc6d99cd229a79aull, 0x4bc829fda9f7309dull,
0x4bc829fda9f7309eull, 0x4bca32ac316fb3abull, 0x4bca32ac316fb3acull, 0x4bcb08f0094136b0ull, 0x4bcf38434058c5c6ull, 0x4bcf38434058c5c7ull, 0x4bd2ffa354c1ef47ull, 0x4bd2ffa354c1ef48ull,
0x4bd6d99cd229a799ull, 0x4bd6d99cd229a79aull, 0x4bda32ac316fb3abull, 0x4bda32ac316fb3acull, 0x4bdb08f0094136b0ull, 0x4be446b406f0e904ull, 0x4be4eca01375cb70ull, 0x4be4eca01375cb71ull,
0x4be6d99cd229a799ull, 0x4be6d99cd229a79aull, 0x4bea32ac316fb3abull, 0x4bea32ac316fb3acull, 0x4beb08f0094136b0ull, 0x4bf01760cfd959edull, 0x4bf01760cfd959eeull, 0x4bf0e59605c8c22eull,
0x4bf446b406f0e904ull, 0x4bf5e31e72cfb985ull, 0x4bf6d99cd229a799ull, 0x4bf6d99cd229a79aull, 0x4bfd93ca3297da81ull, 0x4bfd93ca3297da82ull, 0x4c001760cfd959edull, 0x4c001760cfd959eeull,
0x4c00e59605c8c22eull, 0x4c020924f5680133ull, 0x4c05e31e72cfb985ull, 0x4c06d99cd229a799ull, 0x4c06d99cd229a79aull, 0x4c101760cfd959edull, 0x4c101760cfd959eeull, 0x4c10e59605c8c22eull,
0x4c16d99cd229a799ull, 0x4c16d99cd229a79aull, 0x4c1fde2f4cdda833ull, 0x4c200d4e857eb878ull, 0x4c200d4e857eb879ull, 0x4c201760cfd959edull, 0x4c201760cfd959eeull, 0x4c20e59605c8c22eull,
0x4c26d99cd229a799ull, 0x4c26d99cd229a79aull, 0x4c2f4c67d50e08b0ull, 0x4c2f4c67d50e08b1ull, 0x4c2fde2f4cdda833ull, 0x4c30e59605c8c22eull, 0x4c32a58234374d66ull, 0x4c32a58234374d67ull,
0x4c33645a3c4c3dd9ull, 0x4c33645a3c4c3ddaull, 0x4c36d99cd229a799ull, 0x4c36d99cd229a79aull, 0x4c3b1302539bd825ull, 0x4c3fde2f4cdda833ull, 0x4c40e59605c8c22eull, 0x4c414a4ced5310c0ull,
0x4c451efb873af2b9ull, 0x4c451efb873af2baull, 0x4c46d99cd229a799ull, 0x4c46d99cd229a79aull, 0x4c4e6f172f96ae40ull, 0x4c4e6f172f96ae41ull, 0x4c4fde2f4cdda833ull, 0x4c50e59605c8c22eull,
0x4c551efb873af2b9ull, 0x4c551efb873af2baull, 0x4c55fc4c2cb24d29ull, 0x4c55fc4c2cb24d2aull, 0x4c58943e1d185c79ull, 0x4c58943e1d185c7aull, 0x4c5e006edcdb0108ull, 0x4c5e006edcdb0109ull,
0x4c5fde2f4cdda833ull, 0x4c60e59605c8c22eull, 0x4c6441aae1c39849ull, 0x4c6441aae1c3984aull, 0x4c651efb873af2b9ull, 0x4c651efb873af2baull, 0x4c658da3d9f69ff1ull, 0x4c658da3d9f69ff2ull,
0x4c68943e1d185c79ull, 0x4c68943e1d185c7aull, 0x4c6dc91ab37d2a6cull, 0x4c6dc91ab37d2a6dull, 0x4c7441aae1c39849ull, 0x4c7441aae1c3984aull, 0x4c751efb873af2b9ull, 0x4c751efb873af2baull,
0x4c75564fb098c955ull, 0x4c75564fb098c956ull, 0x4c766af47f6dfa61ull, 0x4c766af47f6dfa62ull, 0x4c78943e1d185c79ull, 0x4c78943e1d185c7aull, 0x4c7b8b9c1188e403ull, 0x4c8441aae1c39849ull,
0x4c8441aae1c3984aull, 0x4c853aa59be9de07ull, 0x4c853aa59be9de08ull, 0x4c85564fb098c955ull, 0x4c85564fb098c956ull, 0x4c88943e1d185c79ull, 0x4c88943e1d185c7aull, 0x4c8b8b9c1188e403ull,
0x4c932d0612ee673dull, 0x4c932d0612ee673eull, 0x4c94cbfd492e30cfull, 0x4c94cbfd492e30d0ull, 0x4c953aa59be9de07ull, 0x4c953aa59be9de08ull, 0x4c95487aa64153aeull, 0x4c95487aa64153afull,
0x4c95564fb098c955ull, 0x4c95564fb098c956ull, 0x4c98943e1d185c79ull, 0x4c98943e1d185c7aull, 0x4ca0bd2bfd34f98bull, 0x4ca32d0612ee673dull, 0x4ca32d0612ee673eull, 0x4ca511267ce37d12ull,
0x4ca511267ce37d13ull, 0x4ca5564fb098c955ull, 0x4ca5564fb098c956ull, 0x4ca5e0a2180361dbull, 0x4ca5e0a2180361dcull, 0x4cab041832d1ca2cull, 0x4cb486d41578e48cull, 0x4cb486d41578e48dull,
0x4cb533bb16be2334ull, 0x4cb5564fb098c955ull, 0x4cb5564fb098c956ull, 0x4cb5e0a2180361dbull, 0x4cb5e0a2180361dcull, 0x4cbe3f38169ddea1ull, 0x4cc533bb16be2334ull, 0x4cc5e0a2180361dbull,
0x4cc5e0a2180361dcull, 0x4cce3f38169ddea1ull, 0x4ccff02d3bf7daefull, 0x4ccff02d3bf7daf0ull, 0x4cd0bd2bfd34f98bull, 0x4cd2801f11a92896ull, 0x4cd533bb16be2334ull, 0x4cd5e0a2180361dbull,
0x4cd5e0a2180361dcull, 0x4cd9668840ebbff1ull, 0x4cd9668840ebbff2ull, 0x4ce0bd2bfd34f98bull, 0x4ce533bb16be2334ull, 0x4ce5e0a2180361dbull, 0x4ce5e0a2180361dcull, 0x4ce941251e5d9b21ull,
0x4cef20b1a0d7f626ull, 0x4cef20b1a0d7f627ull, 0x4cf28d43b3e65ecdull, 0x4cf28d43b3e65eceull, 0x4cf4ff288dc94a56ull, 0x4cf5e0a2180361dbull, 0x4cf5e0a2180361dcull, 0x4cf941251e5d9b21ull,
0x4cfa80a9dc6dac01ull, 0x4d028d43b3e65ecdull, 0x4d028d43b3e65eceull, 0x4d05e0a2180361dbull, 0x4d05e0a2180361dcull, 0x4d072026d61372bbull, 0x4d072026d61372bcull, 0x4d0941251e5d9b21ull,
0x4d0a80a9dc6dac01ull, 0x4d0c2a590e7c2d88ull, 0x4d10bd2bfd34f98bull, 0x4d11e05cb2a12026ull, 0x4d1a80a9dc6dac01ull, 0x4d1b622366a7c386ull, 0x4d1b622366a7c387ull, 0x4d1e80ef41cfedb6ull,
0x4d1e80ef41cfedb7ull, 0x4d1ed0d07153f1eeull, 0x4d1ed0d07153f1efull, 0x4d21e05cb2a12026ull, 0x4d260892afc563f7ull, 0x4d260892afc563f8ull, 0x4d2a80a9dc6dac01ull, 0x4d2b622366a7c386ull,
0x4d2b622366a7c387ull, 0x4d2e80ef41cfedb6ull, 0x4d2e80ef41cfedb7ull, 0x4d31e05cb2a12026ull, 0x4d3a80a9dc6dac01ull, 0x4d3b622366a7c386ull, 0x4d3b622366a7c387ull, 0x4d3e80ef41cfedb6ull,
0x4d3e80ef41cfedb7ull, 0x4d3ee4c8bd34f2fcull, 0x4d3ee4c8bd34f2fdull, 0x4d41e05cb2a12026ull, 0x4d43038d680d46c1ull, 0x4d49ad5a5685899eull, 0x4d4b622366a7c386ull, 0x4d4b622366a7c387ull,
0x4d4ee4c8bd34f2fcull, 0x4d4ee4c8bd34f2fdull, 0x4d51ae6ff4ee9d83ull, 0x4d51e05cb2a12026ull, 0x4d565873df49682full, 0x4d565873df496830ull, 0x4d58dd4ba2f895dbull, 0x4d5ee4c8bd34f2fcull,
0x4d5ee4c8bd34f2fdull, 0x4d5fda3a93500b90ull, 0x4d61ae6ff4ee9d83ull, 0x4d61e05cb2a12026ull, 0x4d665873df49682full, 0x4d665873df496830ull, 0x4d6e4f02841d6b13ull, 0x4d6e4f02841d6b14ull,
0x4d6ee4c8bd34f2fcull, 0x4d6ee4c8bd34f2fdull, 0x4d6fda3a93500b90ull, 0x4d71e05cb2a12026ull, 0x4d734203c0e42736ull, 0x4d734203c0e42737ull, 0x4d765873df49682full, 0x4d765873df496830ull,
0x4d7c46ddc33d09acull, 0x4d7e4f02841d6b13ull, 0x4d7e4f02841d6b14ull, 0x4d7ecbd25e5bb1abull, 0x4d834203c0e42736ull, 0x4d834203c0e42737ull, 0x4d83de005bd620dfull, 0x4d865873df49682full,
0x4d865873df496830ull, 0x4d8a53bb31b369a1ull, 0x4d8a53bb31b369a2ull, 0x4d8afa1c0ce149a5ull, 0x4d8ecbd25e5bb1abull, 0x4d934203c0e42736ull, 0x4d934203c0e42737ull, 0x4d93de005bd620dfull,
0x4d985617887e68e8ull, 0x4d985617887e68e9ull, 0x4d9954e95d18e945ull, 0x4d9a53bb31b369a1ull, 0x4d9a53bb31b369a2ull, 0x4da05f88e3aa6604ull, 0x4da05f88e3aa6605ull, 0x4da3de005bd620dfull,
0x4da69974dc778512ull, 0x4da85617887e68e8ull, 0x4da85617887e68e9ull, 0x4da954e95d18e945ull, 0x4daa53bb31b369a1ull, 0x4daa53bb31b369a2ull, 0x4db559a20aaee7d3ull, 0x4db6cadf794bc86cull,
0x4db85617887e68e8ull, 0x4db85617887e68e9ull, 0x4db954e95d18e945ull, 0x4dba53bb31b369a1ull, 0x4dba53bb31b369a2ull, 0x4dbafa1c0ce149a5ull, 0x4dc280461b856ec5ull, 0x4dc280461b856ec6ull,
0x4dc559a20aaee7d3ull, 0x4dc6cadf794bc86cull, 0x4dc8e27dc3168908ull, 0x4dc8e27dc3168909ull, 0x4dca53bb31b369a1ull, 0x4dca53bb31b369a2ull, 0x4dcf2abaca11e368ull, 0x4dd118279af8d651ull,
0x4dd280461b856ec5ull, 0x4dd280461b856ec6ull, 0x4dda53bb31b369a1ull, 0x4dda53bb31b369a2ull, 0x4dde9535a1697b23ull, 0x4dde9535a1697b24ull, 0x4ddf2abaca11e368ull, 0x4de118279af8d651ull,
0x4de280461b856ec5ull, 0x4de280461b856ec6ull, 0x4de66a00a69c6c33ull, 0x4de66a00a69c6c34ull, 0x4deb8e3f0bee995full, 0x4deb8e3f0bee9960ull, 0x4dee9535a1697b23ull, 0x4dee9535a1697b24ull,
0x4df118279af8d651ull, 0x4df280461b856ec5ull, 0x4df280461b856ec6ull, 0x4df475236110ed7cull, 0x4df475236110ed7dull, 0x4df66a00a69c6c33ull, 0x4df66a00a69c6c34ull, 0x4df9435c95c5e541ull,
0x4dfb8e3f0bee995full, 0x4dfb8e3f0bee9960ull, 0x4e0118279af8d651ull, 0x4e0280461b856ec5ull, 0x4e0280461b856ec6ull, 0x4e037ab4be4b2e21ull, 0x4e066a00a69c6c33ull, 0x4e066a00a69c6c34ull,
0x4e09435c95c5e541ull, 0x4e0d7299295b667aull, 0x4e1118279af8d651ull, 0x4e1185d778bfaf6aull, 0x4e166a00a69c6c33ull, 0x4e166a00a69c6c34ull, 0x4e17bfe14b08745full, 0x4e1c7d97579eba87ull,
0x4e1fd1742fa6898eull, 0x4e2185d778bfaf6aull, 0x4e2a1ebc51539773ull, 0x4e2b4e29d47928fdull, 0x4e2c7d97579eba87ull, 0x4e2e2785c3a2a20aull, 0x4e2e2785c3a2a20bull, 0x4e2f2cec62fc43e8ull,
0x4e2f2cec62fc43e9ull, 0x4e3185d778bfaf6aull, 0x4e3b4e29d47928fdull, 0x4e3c7d97579eba87ull, 0x4e3e2785c3a2a20aull, 0x4e3e2785c3a2a20bull, 0x4e3f2cec62fc43e8ull, 0x4e3f2cec62fc43e9ull,
0x4e45e74d56ef9b44ull, 0x4e45e74d56ef9b45ull, 0x4e4a8a1cdcf5ef96ull, 0x4e4a8a1cdcf5ef97ull, 0x4e4b4e29d47928fdull, 0x4e4be5e0960bf1c2ull, 0x4e4eeb92bb25db71ull, 0x4e5000466a7b2cc7ull,
0x4e51c731209617e1ull, 0x4e51c731209617e2ull, 0x4e55e74d56ef9b44ull, 0x4e55e74d56ef9b45ull, 0x4e5b4e29d47928fdull, 0x4e5b9a0535428d5full, 0x4e5b9a0535428d60ull, 0x4e5eed6ef00f7dfdull,
0x4e5eed6ef00f7dfeull, 0x4e6000466a7b2cc7ull, 0x4e61c731209617e1ull, 0x4e61c731209617e2ull, 0x4e63d73f3bc2d993ull, 0x4e64a08d0fbf90efull, 0x4e6b4e29d47928fdull, 0x4e6fd101126bab25ull,
0x4e7000466a7b2cc7ull, 0x4e73d73f3bc2d993ull, 0x4e77f75b721c5cf6ull, 0x4e7b4e29d47928fdull, 0x4e7bb2d0be7784abull, 0x4e7fe8c6f3b10259ull, 0x4e7fe8c6f3b1025aull, 0x4e804c21cb449129ull,
0x4e804c21cb44912aull, 0x4e80fde34c996085ull, 0x4e80fde34c996086ull, 0x4e8149bead62c4e8ull, 0x4e87f75b721c5cf6ull, 0x4e89a2c2a34ac2f9ull, 0x4e89a2c2a34ac2faull, 0x4e8eb959708b70cfull,
0x4e8eb959708b70d0ull, 0x4e901a512a3d335eull, 0x4e9149bead62c4e8ull, 0x4e91959a0e2c294aull, 0x4e91959a0e2c294bull, 0x4e91f984959545b8ull, 0x4e91f984959545b9ull, 0x4e99a2c2a34ac2f9ull,
0x4e99a2c2a34ac2faull, 0x4e9fa0997fd1da37ull, 0x4ea1959a0e2c294aull, 0x4ea1959a0e2c294bull, 0x4ea5ce239c700459ull, 0x4ea9a2c2a34ac2f9ull, 0x4ea9a2c2a34ac2faull, 0x4eadf5324ea37433ull,
0x4eadf5324ea37434ull, 0x4eafa0997fd1da37ull, 0x4eb3b59f138eeb47ull, 0x4eb3b59f138eeb48ull, 0x4eb59c2e58bb7622ull, 0x4eb9a2c2a34ac2f9ull, 0x4eb9a2c2a34ac2faull, 0x4ebb1e0b8739b8e6ull,
0x4ebbcbfa78f71b96ull, 0x4ebbcbfa78f71b97ull, 0x4ec420e574cc8035ull, 0x4ec420e574cc8036ull, 0x4ec59c2e58bb7622ull, 0x4ec9a2c2a34ac2f9ull, 0x4ec9a2c2a34ac2faull, 0x4ecab75e8e20ef48ull,
0x4ecb1e0b8739b8e6ull, 0x4ecbcbfa78f71b96ull, 0x4ecbcbfa78f71b97ull, 0x4ed45688a56b4aacull, 0x4ed45688a56b4aadull, 0x4ed9a2c2a34ac2f9ull, 0x4ed9a2c2a34ac2faull, 0x4edab75e8e20ef48ull,
0x4edae868569aee6full, 0x4edbcbfa78f71b96ull, 0x4edbcbfa78f71b97ull, 0x4edf09ce3979a082ull, 0x4ee40986ea98b376ull, 0x4ee43bb70d1be571ull, 0x4ee9a2c2a34ac2f9ull, 0x4ee9a2c2a34ac2faull,
0x4eeb0339eeea53aaull, 0x4eeb0339eeea53abull, 0x4eebcbfa78f71b96ull, 0x4eebcbfa78f71b97ull, 0x4eef09ce3979a082ull, 0x4ef40613dc7d1afaull, 0x4ef43bb70d1be571ull, 0x4ef7475aab1b3861ull,
0x4ef7475aab1b3862ull, 0x4ef9a2c2a34ac2f9ull, 0x4ef9a2c2a34ac2faull, 0x4efb0339eeea53aaull, 0x4efb0339eeea53abull, 0x4efb38dd1f891e21ull, 0x4efb38dd1f891e22ull, 0x4f00afbb37bd967bull,
0x4f00b29b18d4958dull, 0x4f043bb70d1be571ull, 0x4f08750ea732fdadull, 0x4f08750ea732fdaeull, 0x4f0cae66414a15eaull, 0x4f0e8f35c448a2a0ull, 0x4f0e8f35c448a2a1ull, 0x4f10afbb37bd967bull,
0x4f10b29b18d4958dull, 0x4f143bb70d1be571ull, 0x4f18750ea732fdadull, 0x4f18750ea732fdaeull, 0x4f1e8f35c448a2a0ull, 0x4f1e8f35c448a2a1ull, 0x4f20afbb37bd967bull, 0x4f21497516e07833ull,
0x4f28750ea732fdadull, 0x4f28750ea732fdaeull, 0x4f2a203af992bfedull, 0x4f2ce40971e8e061ull, 0x4f31497516e07833ull, 0x4f36c9e254d33b6eull, 0x4f38750ea732fdadull, 0x4f38750ea732fdaeull,
0x4f3a203af992bfedull, 0x4f3f21bff0b206abull, 0x4f3f21bff0b206acull, 0x4f408ce499519ce3ull, 0x4f408ce499519ce4ull, 0x4f42c29611fe2ed2ull, 0x4f46c9e254d33b6eull, 0x4f48750ea732fdadull,
0x4f48750ea732fdaeull, 0x4f49319f24c1d8fdull, 0x4f4f21bff0b206abull, 0x4f4f21bff0b206acull, 0x4f511769bf9e6c92ull, 0x4f511769bf9e6c93ull, 0x4f52c29611fe2ed2ull, 0x4f52ed71b686bcc5ull,
0x4f52ed71b686bcc6ull, 0x4f56c9e254d33b6eull, 0x4f58750ea732fdadull, 0x4f58750ea732fdaeull, 0x4f5f21bff0b206abull, 0x4f5f21bff0b206acull, 0x4f611769bf9e6c92ull, 0x4f611769bf9e6c93ull,
0x4f62ed71b686bcc5ull, 0x4f62ed71b686bcc6ull, 0x4f68750ea732fdadull, 0x4f68750ea732fdaeull, 0x4f6d25b42bb28962ull, 0x4f6dcf0d6d5d087aull, 0x4f6dcf0d6d5d087bull, 0x4f711769bf9e6c92ull,
0x4f711769bf9e6c93ull, 0x4f77b4e650476387ull, 0x4f77b4e650476388ull, 0x4f78750ea732fdadull, 0x4f78750ea732fdaeull, 0x4f7d25b42bb28962ull, 0x4f811769bf9e6c92ull, 0x4f811769bf9e6c93ull,
0x4f844552ab0e138cull, 0x4f844552ab0e138dull, 0x4f85dc4720c5e709ull, 0x4f85dc4720c5e70aull, 0x4f8d25b42bb28962ull, 0x4f8fbe7bb21fa006ull, 0x4f8fcb19325c85c4ull, 0x4f911769bf9e6c92ull,
0x4f911769bf9e6c93ull, 0x4f92026dbb1294acull, 0x4f944552ab0e138cull, 0x4f944552ab0e138dull, 0x4f95dc4720c5e709ull, 0x4f95dc4720c5e70aull, 0x4f9b4a7dc397e099ull, 0x4f9c7c5aea080a49ull,
0x4f9c7c5aea080a4aull, 0x4fa11769bf9e6c92ull, 0x4fa11769bf9e6c93ull, 0x4fa2026dbb1294acull, 0x4fa5dc4720c5e709ull, 0x4fa5dc4720c5e70aull, 0x4fac5a39f0d69fa3ull, 0x4fac5a39f0d69fa4ull,
0x4fac7c5aea080a49ull, 0x4fac7c5aea080a4aull, 0x4faebca8a16a5cdfull, 0x4fb510cce5e9fd4bull, 0x4fb5dc4720c5e709ull, 0x4fb5dc4720c5e70aull, 0x4fb91b4088ce4356ull, 0x4fb91b4088ce4357ull,
0x4fbc7c5aea080a49ull, 0x4fbc7c5aea080a4aull, 0x4fbebca8a16a5cdfull, 0x4fc510cce5e9fd4bull, 0x4fc6830929d739d7ull, 0x4fc7fbbf7b43651eull, 0x4fc7fbbf7b43651full, 0x4fc9e6bac3aa2d15ull,
0x4fcc7c5aea080a49ull, 0x4fcc7c5aea080a4aull, 0x4fcebca8a16a5cdfull, 0x4fd19ea208178105ull, 0x4fd5ed579d5e9c5cull, 0x4fd5ed579d5e9c5dull, 0x4fd77bc3d4ca1530ull, 0x4fd7fbbf7b43651eull,
0x4fd7fbbf7b43651full, 0x4fd9e6bac3aa2d15ull, 0x4fdebca8a16a5cdfull, 0x4fe19ea208178105ull, 0x4fe2a5d5f709e566ull, 0x4fe77bc3d4ca1530ull, 0x4fe7fbbf7b43651eull, 0x4fe7fbbf7b43651full,
0x4fe8b13f4c3a2122ull, 0x4fe8b13f4c3a2123ull, 0x4feebca8a16a5cdfull, 0x4ff19ea208178105ull, 0x4ff2a5d5f709e566ull, 0x4ff8b13f4c3a2122ull, 0x4ff8b13f4c3a2123ull, 0x4ff934d943b35353ull,
0x4ffce0269d031df0ull, 0x4ffce0269d031df1ull, 0x4ffe58dcee6f4938ull, 0x500569bda5e56a2cull, 0x5006c2a5b2d376eaull, 0x5008b13f4c3a2122ull, 0x5008b13f4c3a2123ull, 0x500934d943b35353ull,
0x500ce0269d031df0ull, 0x500ce0269d031df1ull, 0x500d5ab4c9fc9a7cull, 0x5012f78a15058dc3ull, 0x501569bda5e56a2cull, 0x50174f4b74cc5ebfull, 0x50174f4b74cc5ec0ull, 0x5018b13f4c3a2122ull,
0x5018b13f4c3a2123ull, 0x501ce0269d031df0ull, 0x501ce0269d031df1ull, 0x501d5ab4c9fc9a7cull, 0x50200f4e3c6c0fa1ull, 0x502111fc461e992full, 0x502111fc461e9930ull, 0x50260407977d73ddull,
0x5028b13f4c3a2122ull, 0x5028b13f4c3a2123ull, 0x502ca9bade45b94aull, 0x502ca9bade45b94bull, 0x502ec5b46bea1284ull, 0x50300f4e3c6c0fa1ull, 0x503111fc461e992full, 0x503111fc461e9930ull,
0x5036fd4d575270d2ull, 0x5036fd4d575270d3ull, 0x503ac42d0f5ec4b7ull, 0x503ca9bade45b94aull, 0x503ca9bade45b94bull, 0x503f56f293026690ull, 0x504111fc461e992full, 0x504111fc461e9930ull,
0x504258b0fe3de08dull, 0x504258b0fe3de08eull, 0x504505e8b2fa8dd3ull, 0x504ac42d0f5ec4b7ull, 0x504ca9bade45b94aull, 0x504ca9bade45b94bull, 0x504d8369d93b4be2ull, 0x504d8369d93b4be3ull,
0x505111fc461e992full, 0x505111fc461e9930ull, 0x505258b0fe3de08dull, 0x505258b0fe3de08eull, 0x505505e8b2fa8dd3ull, 0x505ca9bade45b94aull, 0x505ca9bade45b94bull, 0x505cdba557bb2777ull,
0x505ee0ea4b48c4d7ull, 0x506111fc461e992full, 0x506111fc461e9930ull, 0x5062f78a15058dc3ull, 0x506505e8b2fa8dd3ull, 0x50693040de93e71cull, 0x50693040de93e71dull, 0x506ca9bade45b94aull,
0x506ca9bade45b94bull, 0x506e9ce39cdc0707ull, 0x506e9ce39cdc0708ull, 0x50704138b5e17dcdull, 0x50704138b5e17dceull, 0x507226c684c87261ull, 0x5072f78a15058dc3ull, 0x507505e8b2fa8dd3ull,
0x507ad1c7ff0e1de0ull, 0x507ad1c7ff0e1de1ull, 0x507e194bf55ec703ull, 0x507e194bf55ec704ull, 0x508226c684c87261ull, 0x508505e8b2fa8dd3ull, 0x5089549bf845b6feull, 0x508ad1c7ff0e1de0ull,
0x508ad1c7ff0e1de1ull, 0x508ed11480eb4de0ull, 0x509226c684c87261ull, 0x5095bdb13e8714afull, 0x5095bdb13e8714b0ull, 0x50993040de93e71cull, 0x50993040de93e71dull, 0x509ad1c7ff0e1de0ull,
0x509ad1c7ff0e1de1ull, 0x509ed11480eb4de0ull, 0x50a01cdd9c2fadecull, 0x50a226c684c87261ull, 0x50a5bdb13e8714afull, 0x50a5bdb13e8714b0ull, 0x50ab05f8e31d64b9ull, 0x50aed11480eb4de0ull,
0x50b121d2107c1026ull, 0x50b121d2107c1027ull, 0x50b226c684c87261ull, 0x50b5bdb13e8714afull, 0x50b5bdb13e8714b0ull, 0x50b71ccf60b07a68ull, 0x50bfa9c2f65724bdull, 0x50bfa9c2f65724beull,
0x50c226c684c87261ull, 0x50c342acd09310acull, 0x50c5bdb13e8714afull, 0x50c5bdb13e8714b0ull, 0x50cd71f65ec1e827ull, 0x50cd71f65ec1e828ull, 0x50cf41612e38970cull, 0x50cf41612e38970dull,
0x50d226c684c87261ull, 0x50d342acd09310acull, 0x50d430af6d6136d6ull, 0x50dd3dc57ab2a14full, 0x50dd71f65ec1e827ull, 0x50dd71f65ec1e828ull, 0x50de3c6cb9ec34d2ull, 0x50e226c684c87261ull,
0x50e342acd09310acull, 0x50e3d09ff6785fd1ull, 0x50e3d09ff6785fd2ull, 0x50e42a62384e681eull, 0x50e42a62384e681full, 0x50e7b245ffbd89d8ull, 0x50e9368e13a6b5d4ull, 0x50f226c684c87261ull,
0x50f342acd09310acull, 0x50f3d09ff6785fd1ull, 0x50f3d09ff6785fd2ull, 0x50f42a62384e681eull, 0x50f42a62384e681full, 0x50f9368e13a6b5d4ull, 0x50fdffe984a7374dull, 0x5101948b45f33c79ull,
0x5102e8ea8ebd085full, 0x5108135804b7d4d7ull, 0x510a7805bd381593ull, 0x510a7805bd381594ull, 0x510dffe984a7374dull, 0x510e42b9eeff0389ull, 0x510e42b9eeff038aull, 0x511053139c61dcb9ull,
0x511053139c61dcbaull, 0x5112e8ea8ebd085full, 0x5118135804b7d4d7ull, 0x511b09a0c4af8612ull, 0x511d9ed77facec4eull, 0x511f843198906349ull, 0x5121039075d99164ull, 0x5121f63d824b4ce1ull,
0x5121f63d824b4ce2ull, 0x51251d0f44c0239cull, 0x5128135804b7d4d7ull, 0x51298e7c64b3ad74ull, 0x51298e7c64b3ad75ull, 0x512f843198906349ull, 0x513053139c61dcb9ull, 0x513053139c61dcbaull,
0x5131039075d99164ull, 0x51351d0f44c0239cull, 0x513843e10734fa56ull, 0x513843e10734fa57ull, 0x513c84c524ab5eafull, 0x513c84c524ab5eb0ull, 0x513f12b8d1d4c1c9ull, 0x513f12b8d1d4c1caull,
0x514053139c61dcb9ull, 0x514053139c61dcbaull, 0x51451d0f44c0239cull, 0x514843e10734fa56ull, 0x514843e10734fa57ull, 0x514c84c524ab5eafull, 0x514c84c524ab5eb0ull, 0x514f3bb430838dbeull,
0x514f3bb430838dbfull, 0x5152796d5c281f28ull, 0x5152796d5c281f29ull, 0x515402fce9be95fdull, 0x515402fce9be95feull, 0x51554474934ff5bdull, 0x515a645315f02c83ull, 0x515c84c524ab5eafull,
0x515c84c524ab5eb0ull, 0x515f28670d436323ull, 0x516402fce9be95fdull, 0x516402fce9be95feull, 0x516a645315f02c83ull, 0x516c84c524ab5eafull, 0x516c84c524ab5eb0ull, 0x516cc65d1199c7d3ull,
0x516ea537336690dcull, 0x516f69fefa31cc46ull, 0x516f69fefa31cc47ull, 0x517053139c61dcb9ull, 0x517053139c61dcbaull, 0x517402fce9be95fdull, 0x517402fce9be95feull, 0x5174db7757d1ba78ull,
0x5174db7757d1ba79ull, 0x517a645315f02c83ull, 0x517ea537336690dcull, 0x517fd2312da08aa1ull, 0x518106d07164e85dull, 0x5184db7757d1ba78ull, 0x5184db7757d1ba79ull, 0x5186fbe9668ceca5ull,
0x5188b35e39c9e38dull, 0x5189f4d5e35b434cull, 0x5189f4d5e35b434dull, 0x518bac4ab6983a34ull, 0x518bac4ab6983a35ull, 0x519106d07164e85dull, 0x5193274280201a89ull, 0x5193274280201a8aull,
0x5198b35e39c9e38dull, 0x5199f4d5e35b434cull, 0x5199f4d5e35b434dull, 0x519d5edf90842ea7ull, 0x519f80f19d050c50ull, 0x51a3274280201a89ull, 0x51a3274280201a8aull, 0x51a4eef73d15c44eull,
0x51a4eef73d15c44full, 0x51ab364d8ceca30cull, 0x51af13146835ce96ull, 0x51af80f19d050c50ull, 0x51b3274280201a89ull, 0x51b3274280201a8aull, 0x51b35e311a87b966ull, 0x51b35e311a87b967ull,
0x51b468ba29b17a49ull, 0x51b732d800f48b82ull, 0x51bbbc8aa050ed11ull, 0x51bbbc8aa050ed12ull, 0x51bf80f19d050c50ull, 0x51c101f07813e5e7ull, 0x51c101f07813e5e8ull, 0x51c732d800f48b82ull,
0x51c7a0b535c3c93cull, 0x51cb077ee7615d9dull, 0x51cb077ee7615d9eull, 0x51cef79d1b01ff27ull, 0x51cef79d1b01ff28ull, 0x51cf235451ee8173ull, 0x51d101f07813e5e7ull, 0x51d101f07813e5e8ull,
0x51d3a121d9095803ull, 0x51db077ee7615d9dull, 0x51db077ee7615d9eull, 0x51dd2cd0ef6d923full, 0x51dd2cd0ef6d9240ull, 0x51def79d1b01ff27ull, 0x51def79d1b01ff28ull, 0x51e101f07813e5e7ull,
0x51e101f07813e5e8ull, 0x51e3b097022327b2ull, 0x51e71760b3c0bc13ull, 0x51e71760b3c0bc14ull, 0x51e76bb7b2fafd87ull, 0x51e76bb7b2fafd88ull, 0x51ecff8e0131ae62ull, 0x51ecff8e0131ae63ull,
0x51eef79d1b01ff27ull, 0x51eef79d1b01ff28ull, 0x51f101f07813e5e7ull, 0x51f101f07813e5e8ull, 0x51f3b097022327b2ull, 0x51f71760b3c0bc13ull, 0x51f71760b3c0bc14ull, 0x51fcff8e0131ae62ull,
0x51fcff8e0131ae63ull, 0x51fdfb958e19d6c5ull, 0x51fe6b312a602edcull, 0x520101f07813e5e7ull, 0x520101f07813e5e8ull, 0x5203b097022327b2ull, 0x520c038674498600ull, 0x520cd0bf5ba668f4ull,
0x520cff8e0131ae62ull, 0x520cff8e0131ae63ull, 0x520dfb958e19d6c5ull, 0x521101f07813e5e7ull, 0x521101f07813e5e8ull, 0x5212ede8faad8cecull, 0x5212ede8faad8cedull, 0x52189cbcc2abf19eull,
0x52189cbcc2abf19full, 0x521969f5aa08d492ull, 0x521969f5aa08d493ull, 0x521c038674498600ull, 0x522101f07813e5e7ull, 0x522101f07813e5e8ull, 0x522502a4d7372480ull, 0x522535f3110e5d3dull,
0x52289cbcc2abf19eull, 0x52289cbcc2abf19full, 0x5229eeca97bfee6cull, 0x5229eeca97bfee6dull, 0x522c038674498600ull, 0x5231823408adf3c0ull, 0x52319bdb2599901eull, 0x52319bdb2599901full,
0x523502a4d7372480ull, 0x523535f3110e5d3dull, 0x523b9cea009b1486ull, 0x523d6f3b66491f2cull, 0x523d6f3b66491f2dull, 0x5241823408adf3c0ull, 0x52419bdb2599901eull, 0x52419bdb2599901full,
0x524334e4cea625dbull, 0x524535f3110e5d3dull, 0x5248696e88d4b8e1ull, 0x5248696e88d4b8e2ull, 0x524b6b03ec710bf4ull, 0x524b6b03ec710bf5ull, 0x5250016956dfca36ull, 0x5250016956dfca37ull,
0x5251823408adf3c0ull, 0x52519bdb2599901eull, 0x52519bdb2599901full, 0x525c1d2d9135225eull, 0x525c1d2d9135225full, 0x525e9e7f64376799ull, 0x5260a217d50ba790ull, 0x5260bbbef1f743eeull,
0x5260bbbef1f743efull, 0x5261823408adf3c0ull, 0x526c1d2d9135225eull, 0x526c1d2d9135225full, 0x526f50a908fb7e03ull, 0x5270016956dfca36ull, 0x5270016956dfca37ull, 0x5271823408adf3c0ull,
0x5275b636a1a86b15ull, 0x5275b636a1a86b16ull, 0x5277bca08f09a56eull, 0x5277bca08f09a56full, 0x527c1d2d9135225eull, 0x527c1d2d9135225full, 0x527f50a908fb7e03ull, 0x5281823408adf3c0ull,
0x5282dbcffc441aa6ull, 0x52858c5a0df3e6f6ull, 0x52858c5a0df3e6f7ull, 0x5285b636a1a86b15ull, 0x5285b636a1a86b16ull, 0x5285e2c10ad970b0ull, 0x528c1d2d9135225eull, 0x528c1d2d9135225full,
0x52906a10c8231484ull, 0x52912bcd0bc86a06ull, 0x52912bcd0bc86a07ull, 0x5292dbcffc441aa6ull, 0x52947436cd6907baull, 0x52947436cd6907bbull, 0x5295e2c10ad970b0ull, 0x529f241e9fca7868ull,
0x529f241e9fca7869ull, 0x52a06a10c8231484ull, 0x52a12bcd0bc86a06ull, 0x52a12bcd0bc86a07ull, 0x52a2dbcffc441aa6ull, 0x52a694eaaf9d871aull, 0x52a8909d470cbb85ull, 0x52af241e9fca7868ull,
0x52af241e9fca7869ull, 0x52b06a10c8231484ull, 0x52b6a47d4e7ec632ull, 0x52b6a47d4e7ec633ull, 0x52b792c3fb55214full, 0x52b792c3fb552150ull, 0x52b8909d470cbb85ull, 0x52bb5b714d8fccdcull,
0x52bed985b2905074ull, 0x52bed985b2905075ull, 0x52c06a10c8231484ull, 0x52c1ed894f6dbf89ull, 0x52c6a47d4e7ec632ull, 0x52c6a47d4e7ec633ull, 0x52c792c3fb55214full, 0x52c792c3fb552150ull,
0x52cb5b714d8fccdcull, 0x52cd7b59a1e2b969ull, 0x52cd7b59a1e2b96aull, 0x52d06a10c8231484ull, 0x52d1ed894f6dbf89ull, 0x52d48494fa2bd9a5ull, 0x52d6a47d4e7ec632ull, 0x52d6a47d4e7ec633ull,
0x52d792c3fb55214full, 0x52d792c3fb552150ull, 0x52dccc43998bede4ull, 0x52e11926d079e009ull, 0x52e11926d079e00aull, 0x52e1ed894f6dbf89ull, 0x52e3390f24cccc97ull, 0x52e93b88f93ce04eull,
0x52e93b88f93ce04full, 0x52ed37fea73c8316ull, 0x52ee35d7f2f41d4bull, 0x52ee35d7f2f41d4cull, 0x52f11926d079e009ull, 0x52f11926d079e00aull, 0x52f5e9fefd6d6250ull, 0x52f5e9fefd6d6251ull,
0x52f74a40392e4cb9ull, 0x52f74a40392e4cbaull, 0x52fa0feb7830bfceull, 0x52fe35d7f2f41d4bull, 0x52fe35d7f2f41d4cull, 0x53011926d079e009ull, 0x53011926d079e00aull, 0x5305e9fefd6d6250ull,
0x5305e9fefd6d6251ull, 0x530a0feb7830bfceull, 0x530e211c8c923ff0ull, 0x530e211c8c923ff1ull, 0x530e73fe01ea0334ull, 0x53111926d079e009ull, 0x53111926d079e00aull, 0x5312f0731a4693b0ull,
0x531455f565e780acull, 0x531455f565e780adull, 0x53179d21ae860ffdull, 0x531a0feb7830bfceull, 0x531e35d7f2f41d4bull, 0x531e35d7f2f41d4cull, 0x53211926d079e009ull, 0x53211926d079e00aull,
0x53215c6982c0b20cull, 0x53238bf09a248fdaull, 0x53238bf09a248fdbull, 0x532ad9f043f3b0a0ull, 0x532ce7b7a7bce808ull, 0x532fc9e18a79feefull, 0x532fc9e18a79fef0ull, 0x53309264b6fdc13aull,
0x53338bf09a248fdaull, 0x53338bf09a248fdbull, 0x533a74edde123837ull, 0x533ce7b7a7bce808ull, 0x533f8d02a458540dull, 0x533f8d02a458540eull, 0x533fc9e18a79feefull, 0x533fc9e18a79fef0ull,
0x53402d62511c48d1ull, 0x5343ba77e6098482ull, 0x5343be71cd154c0full, 0x534a426cab217c02ull, 0x534a426cab217c03ull, 0x534d6bd327312c79ull, 0x534d6bd327312c7aull, 0x534fc9e18a79feefull,
0x534fc9e18a79fef0ull, 0x53502d62511c48d1ull, 0x5351c16be8a22a75ull, 0x5353be71cd154c0full, 0x535a426cab217c02ull, 0x535a426cab217c03ull, 0x535f64df24988686ull, 0x535f64df24988687ull,
0x535ffc62bd6abb24ull, 0x53606333c496d5fbull, 0x536095b4f787922full, 0x536095b4f7879230ull, 0x5360c4e5e9ee7d6eull, 0x5360c4e5e9ee7d6full, 0x536210d2c8d61105ull, 0x536bf00baf60b70cull,
0x536bf00baf60b70dull, 0x536f64df24988686ull, 0x536f64df24988687ull, 0x537030b291a619c6ull, 0x537030b291a619c7ull, 0x53706333c496d5fbull, 0x53712d389059c6cdull, 0x537210d2c8d61105ull,
0x5378c74ed9d2fd2dull, 0x537bf00baf60b70cull, 0x537bf00baf60b70dull, 0x538030b291a619c6ull, 0x538030b291a619c7ull, 0x53806333c496d5fbull, 0x53851f508b287ae7ull, 0x5388c74ed9d2fd2dull,
0x538cc6db31805491ull, 0x538cc6db31805492ull, 0x539030b291a619c6ull, 0x539030b291a619c7ull, 0x53927c3a89e5dfc7ull, 0x53927c3a89e5dfc8ull, 0x5398c74ed9d2fd2dull, 0x539ac05ad73a573aull,
0x539c9459fe8f985dull, 0x539cc6db31805491ull, 0x539cc6db31805492ull, 0x53a030b291a619c6ull, 0x53a030b291a619c7ull, 0x53a27c3a89e5dfc7ull, 0x53a27c3a89e5dfc8ull, 0x53a7a18addb31a2cull,
0x53a7a18addb31a2dull, 0x53a8c74ed9d2fd2dull, 0x53aaadd46c314ac5ull, 0x53ad90dffd434563ull, 0x53ad90dffd434564ull, 0x53b030b291a619c6ull, 0x53b030b291a619c7ull, 0x53b51f508b287ae7ull,
0x53b6e0c94774af95ull, 0x53b8a24203c0e443ull, 0x53b9ba91a30223f9ull, 0x53baadd46c314ac5ull, 0x53c6e0c94774af95ull, 0x53c8a24203c0e443ull, 0x53ca34330799b75full, 0x53caadd46c314ac5ull,
0x53cba11735607191ull, 0x53d6e0c94774af95ull, 0x53d7c185a59ac9ecull, 0x53d940f03e6a9093ull, 0x53da34330799b75full, 0x53da7103b9e58112ull, 0x53dba11735607191ull, 0x53e51f508b287ae7ull,
0x53e6e0c94774af95ull, 0x53e751277687bcc0ull, 0x53e751277687bcc1ull, 0x53e940f03e6a9093ull, 0x53e982fe61e6fe9aull, 0x53ea7103b9e58112ull, 0x53f51f508b287ae7ull, 0x53f6e0c94774af95ull,
0x53f751277687bcc0ull, 0x53f751277687bcc1ull, 0x53f9d8f9fc2808d2ull, 0x53f9d8f9fc2808d3ull, 0x53fa7103b9e58112ull, 0x53fcd12ab0db6210ull, 0x5400f067de0dfd1aull, 0x5403d4c2cb6c20cdull,
0x5403d4c2cb6c20ceull, 0x540751277687bcc0ull, 0x540751277687bcc1ull, 0x5409d8f9fc2808d2ull, 0x5409d8f9fc2808d3ull, 0x540cd12ab0db6210ull, 0x5410f067de0dfd1aull, 0x5413d4c2cb6c20cdull,
0x5413d4c2cb6c20ceull, 0x54159ce004a4898cull, 0x5419d8f9fc2808d2ull, 0x5419d8f9fc2808d3ull, 0x541d731f52437514ull, 0x541d731f52437515ull, 0x541fc95b658ebb4dull, 0x541fc95b658ebb4eull,
0x5420f067de0dfd1aull, 0x542202baae891d4aull, 0x54251f508b287ae7ull, 0x542d731f52437514ull, 0x542d731f52437515ull, 0x542fc95b658ebb4dull, 0x542fc95b658ebb4eull, 0x543035a8037b6729ull,
0x543202baae891d4aull, 0x54352c81d5917c60ull, 0x54352c81d5917c61ull, 0x54363ed4a60c9c90ull, 0x54363ed4a60c9c91ull, 0x543f4031fd512b35ull, 0x543f4031fd512b36ull, 0x543fc95b658ebb4dull,
0x543fc95b658ebb4eull, 0x544035a8037b6729ull, 0x544202baae891d4aull, 0x544a7aee9d901bd7ull, 0x544f4031fd512b35ull, 0x544f4031fd512b36ull, 0x544fc95b658ebb4dull, 0x544fc95b658ebb4eull,
0x545202baae891d4aull, 0x545a7aee9d901bd7ull, 0x545a881fe7f91d50ull, 0x545a881fe7f91d51ull, 0x545f4031fd512b35ull, 0x545f4031fd512b36ull, 0x545fc95b658ebb4dull, 0x545fc95b658ebb4eull,
0x5461e0705479b944ull, 0x546683695a2b649cull, 0x546683695a2b649dull, 0x546a7aee9d901bd7ull, 0x546a881fe7f91d50ull, 0x546a881fe7f91d51ull, 0x546f4031fd512b35ull, 0x546f4031fd512b36ull,
0x5471e0705479b944ull, 0x5473e2cb9b60959eull, 0x547a7aee9d901bd7ull, 0x547f1de7a341c72full, 0x547f1de7a341c730ull, 0x547f4031fd512b35ull, 0x547f4031fd512b36ull, 0x5481e0705479b944ull,
0x5483c869068e92abull, 0x54872edd1c7858baull, 0x54872edd1c7858bbull, 0x548a7aee9d901bd7ull, 0x548aa2827ccb2043ull, 0x548aa2827ccb2044ull, 0x548f1de7a341c72full, 0x548f1de7a341c730ull,
0x54907c578576cf8eull, 0x54907c578576cf8full, 0x5491e0705479b944ull, 0x549a7aee9d901bd7ull, 0x549aa5cb8e2358deull, 0x549aa5cb8e2358dfull, 0x549dee93fde2e360ull, 0x549f73a18468413eull,
0x549f73a18468413full, 0x54a07c578576cf8eull, 0x54a07c578576cf8full, 0x54a1e0705479b944ull, 0x54a6588c69982795ull, 0x54aa7aee9d901bd7ull, 0x54aaa5cb8e2358deull, 0x54aaa5cb8e2358dfull,
0x54af73a18468413eull, 0x54af73a18468413full, 0x54b15fd982c0022dull, 0x54b15fd982c0022eull, 0x54b1e0705479b944ull, 0x54b6588c69982795ull, 0x54b869bd839421b6ull, 0x54bbd9410bb492f6ull,
0x54bbd9410bb492f7ull, 0x54bf73a18468413eull, 0x54bf73a18468413full, 0x54c15fd982c0022dull, 0x54c15fd982c0022eull, 0x54c2435b800934ccull, 0x54c2435b800934cdull, 0x54c6588c69982795ull,
0x54c76124f69624a5ull, 0x54c76124f69624a6ull, 0x54c869bd839421b6ull, 0x54cf73a18468413eull, 0x54cf73a18468413full, 0x54d15fd982c0022dull, 0x54d15fd982c0022eull, 0x54d1d19a81649b7dull,
0x54d6588c69982795ull, 0x54d869bd839421b6ull, 0x54dc72fbca7d3002ull, 0x54dc72fbca7d3003ull, 0x54df73a18468413eull, 0x54df73a18468413full, 0x54e15fd982c0022dull, 0x54e15fd982c0022eull,
0x54e24f4e22af1948ull, 0x54e24f4e22af1949ull, 0x54e3cfa0ffa4a1e6ull, 0x54e3cfa0ffa4a1e7ull, 0x54ea48a6c3724fecull, 0x54eefbe73470b5b1ull, 0x54ef73a18468413eull, 0x54ef73a18468413full,
0x54f1d19a81649b7dull, 0x54f24f4e22af1948ull, 0x54f24f4e22af1949ull, 0x54f881a2c8dfeaaeull, 0x54fa48a6c3724fecull, 0x54fe842ce4792a23ull, 0x54fe842ce4792a24ull, 0x54fefbe73470b5b1ull,
0x5501d19a81649b7dull, 0x5503b67d1295bbf1ull, 0x55059862fb1d6346ull, 0x550e126be5d490d4ull, 0x550e842ce4792a23ull, 0x550e842ce4792a24ull, 0x550efbe73470b5b1ull, 0x55106d683a2771f3ull,
0x55106d683a2771f4ull, 0x5511d19a81649b7dull, 0x5517f203339c9628ull, 0x5517f203339c9629ull, 0x551a4a2517c70c7bull, 0x551a4a2517c70c7cull, 0x551e842ce4792a23ull, 0x551e842ce4792a24ull,
0x551efbe73470b5b1ull, 0x55206d683a2771f3ull, 0x55206d683a2771f4ull, 0x5520e6a0de73ba10ull, 0x5520e6a0de73ba11ull, 0x55242fb5b6e2040eull, 0x552499ff0fdeee90ull, 0x5527f203339c9628ull,
0x5527f203339c9629ull, 0x55342fb5b6e2040eull, 0x553499ff0fdeee90ull, 0x5537f203339c9628ull, 0x5537f203339c9629ull, 0x553afe7bb9e4bc17ull, 0x553afe7bb9e4bc18ull, 0x55442fb5b6e2040eull,
0x5547f203339c9628ull, 0x5547f203339c9629ull, 0x554afe7bb9e4bc17ull, 0x554afe7bb9e4bc18ull, 0x554d1882f79451ccull, 0x554d1882f79451cdull, 0x5552e615c5e41525ull, 0x55542fb5b6e2040eull,
0x5557f203339c9628ull, 0x5557f203339c9629ull, 0x555a8543159873faull, 0x555a8543159873fbull, 0x555f28fcdcf82198ull, 0x55642fb5b6e2040eull, 0x5567f203339c9628ull, 0x5567f203339c9629ull,
0x55693ba3249a8511ull, 0x55693ba3249a8512ull, 0x5569c07ed3d6aa34ull, 0x556da2c099d40ea0ull, 0x556da2c099d40ea1ull, 0x55742fb5b6e2040eull, 0x5577f203339c9628ull, 0x5577f203339c9629ull,
0x557896d32c1b8d9dull, 0x55793ba3249a8511ull, 0x55793ba3249a8512ull, 0x557b6f31df3749d9ull, 0x557e6222e89240b5ull, 0x557e6222e89240b6ull, 0x55842fb5b6e2040eull, 0x5587f203339c9628ull,
0x5587f203339c9629ull, 0x558896d32c1b8d9dull, 0x55893ba3249a8511ull, 0x55893ba3249a8512ull, 0x558b2a130e176b6full, 0x558cdb6138c527f7ull, 0x5592c3865d5425f0ull, 0x559623879362821dull,
0x5597f203339c9628ull, 0x5597f203339c9629ull, 0x55993ba3249a8511ull, 0x55993ba3249a8512ull, 0x559b2a130e176b6full, 0x55a2c3865d5425f0ull, 0x55a8a6cd50bcf6c6ull, 0x55a93ba3249a8511ull,
0x55a93ba3249a8512ull, 0x55ab2a130e176b6full, 0x55b2c3865d5425f0ull, 0x55b6f6ccb5b5c8afull, 0x55b6f6ccb5b5c8b0ull, 0x55b9e8702f6a311aull, 0x55b9e8702f6a311bull, 0x55bb2a130e176b6full,
0x55bdec84bbef8e8dull, 0x55bdec84bbef8e8eull, 0x55c2c3865d5425f0ull, 0x55c3bebcdb3af369ull, 0x55c623879362821dull, 0x55cb2a130e176b6full, 0x55cba7ae4d0ad22bull, 0x55cba7ae4d0ad22cull,
0x55cc6bb5ecc4a5c3ull, 0x55cc6bb5ecc4a5c4ull, 0x55d06b1591a9a132ull, 0x55d3bebcdb3af369ull, 0x55d77467f4a92f6cull, 0x55db2a130e176b6full, 0x55dba7ae4d0ad22bull, 0x55dba7ae4d0ad22cull,
0x55dc6bb5ecc4a5c3ull, 0x55dc6bb5ecc4a5c4ull, 0x55e06b1591a9a132ull, 0x55e3bebcdb3af369ull, 0x55e77467f4a92f6cull, 0x55e94f3d81604d6dull, 0x55e94f3d81604d6eull, 0x55eba7ae4d0ad22bull,
0x55eba7ae4d0ad22cull, 0x55ec6bb5ecc4a5c3ull, 0x55ec6bb5ecc4a5c4ull, 0x55f06b1591a9a132ull, 0x55f1974df77ee391ull, 0x55f3bebcdb3af369ull, 0x55fba7ae4d0ad22bull, 0x55fba7ae4d0ad22cull,
0x55fd04e89ace8970ull, 0x55fd04e89ace8971ull, 0x55ff2c577e8a9948ull, 0x55ff2c577e8a9949ull, 0x5601974df77ee391ull, 0x5603722384360192ull, 0x5603722384360193ull, 0x5604f122374ebac3ull,
0x560c6bb5ecc4a5c3ull, 0x560c6bb5ecc4a5c4ull, 0x560d5181f1d37b47ull, 0x560f2c577e8a9948ull, 0x560f2c577e8a9949ull, 0x5611974df77ee391ull, 0x5613722384360192ull, 0x5613722384360193ull,
0x561d5181f1d37b47ull, 0x561deab49fdd5ef4ull, 0x561fb63337799d3eull, 0x561fb63337799d3full, 0x5621974df77ee391ull, 0x5623722384360192ull, 0x5623722384360193ull, 0x562d5181f1d37b47ull,
0x562deab49fdd5ef4ull, 0x562fb63337799d3eull, 0x562fb63337799d3full, 0x562ffb2113f11f39ull, 0x562ffb2113f11f3aull, 0x5631f324d11d4862ull, 0x5633722384360192ull, 0x5633722384360193ull,
0x56372f7a1831ad71ull, 0x563aecd0ac2d594full, 0x563aecd0ac2d5950ull, 0x563d5181f1d37b47ull, 0x563deae784e0386dull, 0x5641f324d11d4862ull, 0x56472f7a1831ad71ull, 0x564a407e0502945cull,
0x564aecd0ac2d594full, 0x564aecd0ac2d5950ull, 0x564c6bcf5f461280ull, 0x564d5181f1d37b47ull, 0x5652b2b0e3ea5b58ull, 0x5652b2b0e3ea5b59ull, 0x56572f7a1831ad71ull, 0x565a407e0502945cull,
0x565aecd0ac2d594full, 0x565aecd0ac2d5950ull, 0x565bc8fffb6b07d1ull, 0x565bc8fffb6b07d2ull, 0x5661f324d11d4862ull, 0x5662b2b0e3ea5b58ull, 0x5662b2b0e3ea5b59ull, 0x56672f7a1831ad71ull,
0x566eaa7397ad4b63ull, 0x566eaa7397ad4b64ull, 0x566eda03e83beebcull, 0x566eda03e83beebdull, 0x5671f324d11d4862ull, 0x567538e07a2a62baull, 0x567538e07a2a62bbull, 0x56772f7a1831ad71ull,
0x567abcf4041a6fc1ull, 0x567f09fa02d04507ull, 0x567f09fa02d04508ull, 0x5680684ec3219cb9ull, 0x5680684ec3219cbaull, 0x568538e07a2a62baull, 0x568538e07a2a62bbull, 0x56872f7a1831ad71ull,
0x5688f6370e260e99ull, 0x568abcf4041a6fc1ull, 0x568f39bd3861c1d9ull, 0x568f39bd3861c1daull, 0x5690684ec3219cb9ull, 0x5690684ec3219cbaull, 0x5692d0979ea5ffbaull, 0x56972f7a1831ad71ull,
0x569812d8932bde05ull, 0x569abcf4041a6fc1ull, 0x569f39bd3861c1d9ull, 0x569f39bd3861c1daull, 0x56a1939e65fa4ebeull, 0x56a64c1b9d377cddull, 0x56a72f7a1831ad71ull, 0x56a7a12955aec5bbull,
0x56aabcf4041a6fc1ull, 0x56af39bd3861c1d9ull, 0x56af39bd3861c1daull, 0x56b1cf5268f02ac4ull, 0x56b1cf5268f02ac5ull, 0x56b64c1b9d377cddull, 0x56b76851b6f03996ull, 0x56b7a12955aec5bbull,
0x56b88487d0a8f64full, 0x56bf39bd3861c1d9ull, 0x56bf39bd3861c1daull, 0x56c76851b6f03996ull, 0x56c784bd864f7fa8ull, 0x56c784bd864f7fa9ull, 0x56c88487d0a8f64full, 0x56cf39bd3861c1d9ull,
0x56cf39bd3861c1daull, 0x56d41fa0372a629full, 0x56d41fa0372a62a0ull, 0x56d76851b6f03996ull, 0x56d7f66cc3cc97f2ull, 0x56d7f66cc3cc97f3ull, 0x56d88487d0a8f64full, 0x56dcadbb6731adf8ull,
0x56df39bd3861c1d9ull, 0x56df39bd3861c1daull, 0x56e18e3d49342b30ull, 0x56e18e3d49342b31ull, 0x56e41fa0372a629full, 0x56e41fa0372a62a0ull, 0x56e5be00905b1e80ull, 0x56e5be00905b1e81ull,
0x56e88487d0a8f64full, 0x56ebc148830a6e11ull, 0x56edd0813188a658ull, 0x56f18e3d49342b30ull, 0x56f18e3d49342b31ull, 0x56f41fa0372a629full, 0x56f41fa0372a62a0ull, 0x56f88487d0a8f64full,
0x56fa9c69743c6ff7ull, 0x56fb4b0f10f6ce1dull, 0x56fb4b0f10f6ce1eull, 0x56fd426624ac47fbull, 0x56fd426624ac47fcull, 0x570100223c57ccd4ull, 0x57041fa0372a629full, 0x57041fa0372a62a0ull,
0x5704c25506806191ull, 0x5704c25506806192ull, 0x570b4b0f10f6ce1dull, 0x570b4b0f10f6ce1eull, 0x570d23f4d9454debull, 0x570d23f4d9454decull, 0x570d426624ac47fbull, 0x570d426624ac47fcull,
0x571100223c57ccd4ull, 0x57141fa0372a629full, 0x57141fa0372a62a0ull, 0x5719025d959654c6ull, 0x5719025d959654c7ull, 0x571b4b0f10f6ce1dull, 0x571b4b0f10f6ce1eull, 0x571d426624ac47fbull,
0x571d426624ac47fcull, 0x571f56ffeff0a3d0ull, 0x572100223c57ccd4ull, 0x57241fa0372a629full, 0x57241fa0372a62a0ull, 0x572b2261dd214e61ull, 0x572d15eac769e8fdull, 0x572d426624ac47fbull,
0x572d426624ac47fcull, 0x572f8b17a00cc152ull, 0x572f8b17a00cc153ull, 0x573100223c57ccd4ull, 0x5735402acb6dc009ull, 0x573b2261dd214e61ull, 0x573d15eac769e8fdull, 0x573d426624ac47fbull,
0x573d426624ac47fcull, 0x573d6b135881c7b8ull, 0x5740e81eaff2792eull, 0x5740e81eaff2792full, 0x574100223c57ccd4ull, 0x5745402acb6dc009ull, 0x57492b0ac96bd483ull, 0x574f48f5de153ee1ull,
0x574f48f5de153ee2ull, 0x574fb5abe898b0b0ull, 0x575100223c57ccd4ull, 0x5751554acd6fab8full, 0x575275d561b308f8ull, 0x575275d561b308f9ull, 0x5755402acb6dc009ull, 0x5757359aca6cca46ull,
0x575ebaf3e9192b91ull, 0x575ebaf3e9192b92ull, 0x57606d7c18521296ull, 0x5761554acd6fab8full, 0x57628d805fdd0c30ull, 0x57628d805fdd0c31ull, 0x5765402acb6dc009ull, 0x57663ae2caed4527ull,
0x57663ae2caed4528ull, 0x576b207ac86adec0ull, 0x57706d7c18521296ull, 0x5771554acd6fab8full, 0x57763ae2caed4527ull, 0x57763ae2caed4528ull, 0x577b0d917e08f29aull, 0x577b0d917e08f29bull,
0x577ee58831a51aefull, 0x577fa2a519785466ull, 0x57806d7c18521296ull, 0x5781554acd6fab8full, 0x57863ae2caed4527ull, 0x57863ae2caed4528ull, 0x57887bf7f373fffaull, 0x57887bf7f373fffbull,
0x578b0d917e08f29aull, 0x578b0d917e08f29bull, 0x578ee58831a51aefull, 0x57906d7c18521296ull, 0x5791554acd6fab8full, 0x5792d6d371dfe94full, 0x5792d6d371dfe950ull, 0x57963ae2caed4527ull,
0x57963ae2caed4528ull, 0x57993df413cdc0a8ull, 0x57993df413cdc0a9ull, 0x579f28f0841d7740ull, 0x57a0abaac7b68ef4ull, 0x57a1554acd6fab8full, 0x57a2d6d371dfe94full, 0x57a2d6d371dfe950ull,
0x57a488db1e66973bull, 0x57a488db1e66973cull, 0x57a99ef223faa0ffull, 0x57a99ef223faa100ull, 0x57aff7751c54e2b3ull, 0x57aff7751c54e2b4ull, 0x57b04aacb789ae9dull, 0x57b124cbc5593b63ull,
0x57b124cbc5593b64ull, 0x57b3afd748234045ull, 0x57b3afd748234046ull, 0x57b488db1e66973bull, 0x57b488db1e66973cull, 0x57b99ef223faa0ffull, 0x57b99ef223faa100ull, 0x57bff7751c54e2b3ull,
0x57bff7751c54e2b4ull, 0x57c01a2daf733e71ull, 0x57c01a2daf733e72ull, 0x57c124cbc5593b63ull, 0x57c124cbc5593b64ull, 0x57c41c593344ebc0ull, 0x57c41c593344ebc1ull, 0x57c488db1e66973bull,
0x57c488db1e66973cull, 0x57c561def4a9ee31ull, 0x57c561def4a9ee32ull, 0x57cfc6f6143e7288ull, 0x57d343555d0194caull, 0x57d343555d0194cbull, 0x57d4529a28d5c17eull, 0x57d488db1e66973bull,
0x57d488db1e66973cull, 0x57d561def4a9ee31ull, 0x57d561def4a9ee32ull, 0x57d5925dfcc05e5dull, 0x57e4529a28d5c17eull, 0x57e561def4a9ee31ull, 0x57e561def4a9ee32ull, 0x57e5925dfcc05e5dull,
0x57e6545a1d1a1f0bull, 0x57f01586f9850eb0ull, 0x57f4529a28d5c17eull, 0x57f561def4a9ee31ull, 0x57f561def4a9ee32ull, 0x57f6545a1d1a1f0bull, 0x58004606019b7edbull, 0x58004606019b7edcull,
0x5804529a28d5c17eull, 0x580561def4a9ee31ull, 0x580561def4a9ee32ull, 0x580d6ca2716c7589ull, 0x580d6ca2716c758aull, 0x581138812a0bafb5ull, 0x5812d3f27b22b686ull, 0x5812d3f27b22b687ull,
0x581561def4a9ee31ull, 0x581561def4a9ee32ull, 0x58196740b30b31ddull, 0x58196740b30b31deull, 0x58241ae8b7e6525cull, 0x582561def4a9ee31ull, 0x582561def4a9ee32ull, 0x5827648fd3da9007ull,
0x5827648fd3da9008ull, 0x58296740b30b31ddull, 0x58296740b30b31deull, 0x582dfe1f89afc60cull, 0x583561def4a9ee31ull, 0x583561def4a9ee32ull, 0x583865e84372e0f2ull, 0x583865e84372e0f3ull,
0x58396740b30b31ddull, 0x58396740b30b31deull, 0x583dfe1f89afc60cull, 0x583f6f53509d175full, 0x583f6f53509d1760ull, 0x584138812a0bafb5ull, 0x584561def4a9ee31ull, 0x584561def4a9ee32ull,
0x584a689922a382c8ull, 0x584a689922a382c9ull, 0x584ce166d715dfb4ull, 0x584ce166d715dfb5ull, 0x584fee0bef1a37d9ull, 0x584fee0bef1a37daull, 0x58544526421007daull, 0x585561def4a9ee31ull,
0x585561def4a9ee32ull, 0x5857e53c0ba6b87dull, 0x585921a2e5dfe6f3ull, 0x585a689922a382c8ull, 0x585a689922a382c9ull, 0x585ce166d715dfb4ull, 0x585ce166d715dfb5ull, 0x58644526421007daull,
0x586561def4a9ee31ull, 0x586561def4a9ee32ull, 0x5867e53c0ba6b87dull, 0x586921a2e5dfe6f3ull, 0x586a689922a382c8ull, 0x586a689922a382c9ull, 0x586ce166d715dfb4ull, 0x586ce166d715dfb5ull,
0x5870c58c0417e4cbull, 0x5870c58c0417e4ccull, 0x5870f95833ccf0d5ull, 0x5870f95833ccf0d6ull, 0x58744526421007daull, 0x587561def4a9ee31ull, 0x587561def4a9ee32ull, 0x587ce166d715dfb4ull,
0x587ce166d715dfb5ull, 0x587edaae890bd6b0ull, 0x587edaae890bd6b1ull, 0x5880f95833ccf0d5ull, 0x5880f95833ccf0d6ull, 0x58832d9b943b6f83ull, 0x58832d9b943b6f84ull, 0x588561def4a9ee31ull,
0x588561def4a9ee32ull, 0x58860aa1c450f2ccull, 0x5887d01d4691ddbeull, 0x5889566fd29409d0ull, 0x5889566fd29409d1ull, 0x5890f95833ccf0d5ull, 0x5890f95833ccf0d6ull, 0x58932d9b943b6f83ull,
0x58932d9b943b6f84ull, 0x589447bd4472aedaull, 0x589447bd4472aedbull, 0x5897d01d4691ddbeull, 0x5899566fd29409d0ull, 0x5899566fd29409d1ull, 0x589bfea915f56a3bull, 0x589bfea915f56a3cull,
0x58a0f95833ccf0d5ull, 0x58a0f95833ccf0d6ull, 0x58a1dc15f4ed664eull, 0x58a1dc15f4ed664full, 0x58a32d9b943b6f83ull, 0x58a32d9b943b6f84ull, 0x58a3baac6c570f2full, 0x58a67c00a4e12d88ull,
0x58a67c00a4e12d89ull, 0x58af4a7724388140ull, 0x58b0f95833ccf0d5ull, 0x58b0f95833ccf0d6ull, 0x58b1dc15f4ed664eull, 0x58b1dc15f4ed664full, 0x58b3baac6c570f2full, 0x58b66f0d98f3ea86ull,
0x58bb8d4a35652f7full, 0x58bdc4249836552dull, 0x58bdc4249836552eull, 0x58c2b1e0aa2098c5ull, 0x58c3baac6c570f2full, 0x58c9aeb3bdfb869eull, 0x58c9aeb3bdfb869full, 0x58cad6ae69f8786dull,
0x58cdc4249836552dull, 0x58cdc4249836552eull, 0x58d0d34a32b6efe4ull, 0x58d0d34a32b6efe5ull, 0x58d3baac6c570f2full, 0x58d748ad6b27c3ceull, 0x58d9aeb3bdfb869eull, 0x58d9aeb3bdfb869full,
0x58dfa2bb0f9ffe0eull, 0x58e1aff3ff39a7e7ull, 0x58e1aff3ff39a7e8ull, 0x58e2b1e0aa2098c5ull, 0x58e3baac6c570f2full, 0x58eba35b303f0eb2ull, 0x58eba35b303f0eb3ull, 0x58efa2bb0f9ffe0eull,
0x58f3baac6c570f2full, 0x58f7ba0c4bb7fe8aull, 0x58f7ba0c4bb7fe8bull, 0x58f92a4ddce04b69ull, 0x58f92a4ddce04b6aull, 0x58f998a2c321a76bull, 0x58fc9daee960d2bcull, 0x58fc9daee960d2bdull,
0x58ffa2bb0f9ffe0eull, 0x5903baac6c570f2full, 0x5904b5002578d339ull, 0x5907ba0c4bb7fe8aull, 0x5907ba0c4bb7fe8bull, 0x59092a4ddce04b69ull, 0x59092a4ddce04b6aull, 0x590c9daee960d2bcull,
0x590c9daee960d2bdull, 0x590d1ad8c5f1b4c1ull, 0x590d1ad8c5f1b4c2ull, 0x5914b5002578d339ull, 0x591702a55d997f62ull, 0x5917ba0c4bb7fe8aull, 0x5917ba0c4bb7fe8bull, 0x5918722d144c24faull,
0x591c9daee960d2bcull, 0x591c9daee960d2bdull, 0x59237c177e0e9e2cull, 0x59237c177e0e9e2dull, 0x5927ba0c4bb7fe8aull, 0x5927ba0c4bb7fe8bull, 0x592b52b0369cbeb8ull, 0x592c0a7411f61184ull,
0x592dd69790cb07c9ull, 0x59337c177e0e9e2cull, 0x59337c177e0e9e2dull, 0x5937ba0c4bb7fe8aull, 0x5937ba0c4bb7fe8bull, 0x593d7ab5a31e5e63ull, 0x593dd69790cb07c9ull, 0x594133b1a33a1108ull,
0x594133b1a33a1109ull, 0x59437c177e0e9e2cull, 0x59437c177e0e9e2dull, 0x5946d3fa8c4d8368ull, 0x5947ba0c4bb7fe8aull, 0x5947ba0c4bb7fe8bull, 0x594dd69790cb07c9ull, 0x594e8eb8595f2e38ull,
0x594e8eb8595f2e39ull, 0x59502c28adcc2d82ull, 0x59502c28adcc2d83ull, 0x5957ba0c4bb7fe8aull, 0x5957ba0c4bb7fe8bull, 0x595a55490e8c4598ull, 0x595a55490e8c4599ull, 0x595b2462528b9661ull,
0x595b2462528b9662ull, 0x595dd69790cb07c9ull, 0x595fff56d7c24ebbull, 0x59633bb38ea396deull, 0x59644fb644e466b3ull, 0x59644fb644e466b4ull, 0x5964a04a6b78e4beull, 0x5964a04a6b78e4bfull,
0x5967ba0c4bb7fe8aull, 0x5967ba0c4bb7fe8bull, 0x59696f374f21ca76ull, 0x596dd69790cb07c9ull, 0x5971c5cb19ef3451ull, 0x5971c5cb19ef3452ull, 0x59733bb38ea396deull, 0x5974a04a6b78e4beull,
0x5974a04a6b78e4bfull, 0x59796f374f21ca76ull, 0x597dd69790cb07c9ull, 0x597ded900c363222ull, 0x597ded900c363223ull, 0x59833bb38ea396deull, 0x59844fb644e466b3ull, 0x59844fb644e466b4ull,
0x5984a04a6b78e4beull, 0x5984a04a6b78e4bfull, 0x598afc183f41575cull, 0x598bc58a9fb49277ull, 0x598bc58a9fb49278ull, 0x598ded900c363222ull, 0x598ded900c363223ull, 0x59944fb644e466b3ull,
0x59944fb644e466b4ull, 0x5994a04a6b78e4beull, 0x5994a04a6b78e4bfull, 0x59962d2b5b9871a4ull, 0x59962d2b5b9871a5ull, 0x59980aa0724c7c95ull, 0x59980aa0724c7c96ull, 0x599afc183f41575cull,
0x59a43d122f710185ull, 0x59a62d2b5b9871a4ull, 0x59a62d2b5b9871a5ull, 0x59a80aa0724c7c95ull, 0x59a80aa0724c7c96ull, 0x59aafc183f41575cull, 0x59ab5f507b493a95ull, 0x59ab5f507b493a96ull,
0x59b0c91dcc546279ull, 0x59b43d122f710185ull, 0x59b62d2b5b9871a4ull, 0x59b62d2b5b9871a5ull, 0x59b71be5e6f2771dull, 0x59bcec316b68c77bull, 0x59bcec316b68c77cull, 0x59beaf2df9bc61bbull,
0x59beaf2df9bc61bcull, 0x59c0c91dcc546279ull, 0x59c0dd8f2788d699ull, 0x59c0dd8f2788d69aull, 0x59c62d2b5b9871a4ull, 0x59c62d2b5b9871a5ull, 0x59c71be5e6f2771dull, 0x59ccec316b68c77bull,
0x59ccec316b68c77cull, 0x59ceaf2df9bc61bbull, 0x59ceaf2df9bc61bcull, 0x59d0c91dcc546279ull, 0x59d0dd8f2788d699ull, 0x59d0dd8f2788d69aull, 0x59d62d2b5b9871a4ull, 0x59d62d2b5b9871a5ull,
0x59dda3e6594924e1ull, 0x59dda3e6594924e2ull, 0x59dfa9578385909aull, 0x59dfa9578385909bull, 0x59e0dd8f2788d699ull, 0x59e0dd8f2788d69aull, 0x59e3855d4190a41full, 0x59eb7cc78fa80cafull,
0x59eb7cc78fa80cb0ull, 0x59ec6b821b021228ull, 0x59edffc0d0395394ull, 0x59edffc0d0395395ull, 0x59f0dd8f2788d699ull, 0x59f0dd8f2788d69aull, 0x59f99f5278f401beull, 0x59f99f5278f401bfull,
0x59faa03dc85128a9ull, 0x59fb7cc78fa80cafull, 0x59fb7cc78fa80cb0ull, 0x59fc6b821b021228ull, 0x59fe48f731b61d19ull, 0x5a0550a194418d9eull, 0x5a099f5278f401beull, 0x5a099f5278f401bfull,
0x5a0aa03dc85128a9ull, 0x5a0b7cc78fa80cafull, 0x5a0b7cc78fa80cb0ull, 0x5a0e2dae0bb16aeeull, 0x5a0e48f731b61d19ull, 0x5a11c33150e14b59ull, 0x5a1461e708e78825ull, 0x5a1461e708e78826ull,
0x5a1aa03dc85128a9ull, 0x5a1c66f5ea0149cbull, 0x5a1c66f5ea0149ccull, 0x5a1e48f731b61d19ull, 0x5a1f0a37d3084ef4ull, 0x5a1f0a37d3084ef5ull, 0x5a21c33150e14b59ull, 0x5a2461e708e78825ull,
0x5a2461e708e78826ull, 0x5a24f5adc031e664ull, 0x5a2c8da30bd7025dull, 0x5a2c8da30bd7025eull, 0x5a2f0a37d3084ef4ull, 0x5a2f0a37d3084ef5ull, 0x5a31c33150e14b59ull, 0x5a3256f8082ba997ull,
0x5a3256f8082ba998ull, 0x5a3c8da30bd7025dull, 0x5a3c8da30bd7025eull, 0x5a3d437fb1582dd2ull, 0x5a3e9e3907dd411full, 0x5a3e9e3907dd4120ull, 0x5a40327894c6b121ull, 0x5a41c33150e14b59ull,
0x5a41f930b676d243ull, 0x5a41f930b676d244ull, 0x5a4256f8082ba997ull, 0x5a4256f8082ba998ull, 0x5a478358811cbc95ull, 0x5a478358811cbc96ull, 0x5a4f4e6eb2140c60ull, 0x5a50327894c6b121ull,
0x5a54d397d1fb192eull, 0x5a54e4a2c9167fc9ull, 0x5a578358811cbc95ull, 0x5a578358811cbc96ull, 0x5a5914113d3756cdull, 0x5a5914113d3756ceull, 0x5a5a3319303e5ffdull, 0x5a60327894c6b121ull,
0x5a64d397d1fb192eull, 0x5a64e4a2c9167fc9ull, 0x5a678358811cbc95ull, 0x5a678358811cbc96ull, 0x5a6914113d3756cdull, 0x5a6914113d3756ceull, 0x5a70327894c6b121ull, 0x5a70fad4f2d3fe3dull,
0x5a778358811cbc95ull, 0x5a778358811cbc96ull, 0x5a78afe30e30b03full, 0x5a78afe30e30b040ull, 0x5a7cb83e759b82e1ull, 0x5a80327894c6b121ull, 0x5a80fad4f2d3fe3dull, 0x5a878358811cbc95ull,
0x5a878358811cbc96ull, 0x5a887dcbf6ad5cf8ull, 0x5a887dcbf6ad5cf9ull, 0x5a8cb83e759b82e1ull, 0x5a9000617d435ddaull, 0x5a92efbbddf53f03ull, 0x5a94d397d1fb192eull, 0x5a978358811cbc95ull,
0x5a978358811cbc96ull, 0x5a987dcbf6ad5cf8ull, 0x5a987dcbf6ad5cf9ull, 0x5a9e256c820e94d6ull, 0x5a9e256c820e94d7ull, 0x5aa000617d435ddaull, 0x5aa2efbbddf53f03ull, 0x5aa4d397d1fb192eull,
0x5aa78358811cbc95ull, 0x5aa78358811cbc96ull, 0x5aa87dcbf6ad5cf8ull, 0x5aa87dcbf6ad5cf9ull, 0x5aac16f524443a28ull, 0x5ab07d9b380bae0bull, 0x5ab07d9b380bae0cull, 0x5ab3406086a0e35full,
0x5ab3406086a0e360ull, 0x5ab78358811cbc95ull, 0x5ab78358811cbc96ull, 0x5ab87dcbf6ad5cf8ull, 0x5ab87dcbf6ad5cf9ull, 0x5abc16f524443a28ull, 0x5abc7de455fe346full, 0x5ac07d9b380bae0bull,
0x5ac07d9b380bae0cull, 0x5ac1ad293b46ad91ull, 0x5ac40079dc943550ull, 0x5ac40079dc943551ull, 0x5ac51137db332b9eull, 0x5aca087dc679df79ull, 0x5aca087dc679df7aull, 0x5aca461dcfb1f1e9ull,
0x5aca461dcfb1f1eaull, 0x5ad07d9b380bae0bull, 0x5ad07d9b380bae0cull, 0x5ad18e5936aaa459ull, 0x5ad1ad293b46ad91ull, 0x5ad23f0a8a4ff1aeull, 0x5ada461dcfb1f1e9ull, 0x5ada461dcfb1f1eaull,
0x5addc8fc743a792eull, 0x5addc8fc743a792full, 0x5ae18e5936aaa459ull, 0x5ae23f0a8a4ff1aeull, 0x5ae99d207d33a6e2ull, 0x5ae99d207d33a6e3ull, 0x5aea461dcfb1f1e9ull, 0x5aea461dcfb1f1eaull,
0x5aef8a6bc67ebcd1ull, 0x5af18e5936aaa459ull, 0x5af1eac9447ec001ull, 0x5afa461dcfb1f1e9ull, 0x5afa461dcfb1f1eaull, 0x5aff921fc7a5bf1full, 0x5b018e5936aaa459ull, 0x5b019dc138f8a8f5ull,
0x5b050d5dda9faa77ull, 0x5b06cecd2ce3ee19ull, 0x5b06cecd2ce3ee1aull, 0x5b0a461dcfb1f1e9ull, 0x5b0a461dcfb1f1eaull, 0x5b0a4dd1d0d8f437ull, 0x5b0a4dd1d0d8f438ull, 0x5b118a7f36172332ull,
0x5b119dc138f8a8f5ull, 0x5b150d5dda9faa77ull, 0x5b16cecd2ce3ee19ull, 0x5b16cecd2ce3ee1aull, 0x5b1a461dcfb1f1e9ull, 0x5b1a461dcfb1f1eaull, 0x5b1a51abd16c755eull, 0x5b1a51abd16c755full,
0x5b20aabe0d19e1aaull, 0x5b20aabe0d19e1abull, 0x5b218a7f36172332ull, 0x5b2a51abd16c755eull, 0x5b2a51abd16c755full, 0x5b2a595fd29377acull, 0x5b2a595fd29377adull, 0x5b2b316cfa69b6e6ull,
0x5b318a7f36172332ull, 0x5b319dc138f8a8f5ull, 0x5b3a0c57c70d60a0ull, 0x5b3a0c57c70d60a1ull, 0x5b3a595fd29377acull, 0x5b3a595fd29377adull, 0x5b3eb44b9ef23e2bull, 0x5b418a7f36172332ull,
0x5b419dc138f8a8f5ull, 0x5b43bcc59cfee7e2ull, 0x5b481f656a84b0aeull, 0x5b481f656a84b0afull, 0x5b4a3c7cce412f08ull, 0x5b4a595fd29377acull, 0x5b4a595fd29377adull, 0x5b518a7f36172332ull,
0x5b53bcc59cfee7e2ull, 0x5b55ed1f039cebfeull, 0x5b55ed1f039cebffull, 0x5b581f656a84b0aeull, 0x5b581f656a84b0afull, 0x5b5c85df389dfaa2ull, 0x5b5ebbffa0194079ull, 0x5b616d9c31c4da8dull,
0x5b616d9c31c4da8eull, 0x5b618a7f36172332ull, 0x5b65ed1f039cebfeull, 0x5b65ed1f039cebffull, 0x5b6ebbffa0194079ull, 0x5b6fcd6ed2662083ull, 0x5b716d9c31c4da8dull, 0x5b716d9c31c4da8eull,
0x5b72a58f69d4c61dull, 0x5b72a58f69d4c61eull, 0x5b75ed1f039cebfeull, 0x5b75ed1f039cebffull, 0x5b78abf7043ea1daull, 0x5b78abf7043ea1dbull, 0x5b7d0e96d1c46aa7ull, 0x5b7ebbffa0194079ull,
0x5b84495736b8d90eull, 0x5b85ed1f039cebfeull, 0x5b85ed1f039cebffull, 0x5b88abf7043ea1daull, 0x5b88abf7043ea1dbull, 0x5b8d0e96d1c46aa7ull, 0x5b8ebbffa0194079ull, 0x5b8fc3cdd0f55da1ull,
0x5b8fc3cdd0f55da2ull, 0x5b907ce30dc1d288ull, 0x5b94495736b8d90eull, 0x5b95ed1f039cebfeull, 0x5b95ed1f039cebffull, 0x5b9790e6d080feefull, 0x5b9e76c0798e0110ull, 0x5b9ebbffa0194079ull,
0x5ba07ce30dc1d288ull, 0x5ba4495736b8d90eull, 0x5ba790e6d080feefull, 0x5baaff74d14b2242ull, 0x5bab2673384d1fb4ull, 0x5bafb8434a88d310ull, 0x5bb2f38c37d8c101ull, 0x5bb2f38c37d8c102ull,
0x5bb3fb5a68b4de2aull, 0x5bb4495736b8d90eull, 0x5bb790e6d080feefull, 0x5bb95bad04670f51ull, 0x5bb95bad04670f52ull, 0x5bbcb6bbd1b033ebull, 0x5bbcb6bbd1b033ecull, 0x5bc0e488cfaf3517ull,
0x5bc0e488cfaf3518ull, 0x5bc292103653c764ull, 0x5bc292103653c765ull, 0x5bc3fb5a68b4de2aull, 0x5bc5f6de9d5d6b5bull, 0x5bc95bad04670f51ull, 0x5bc95bad04670f52ull, 0x5bccf1396c333016ull,
0x5bccf1396c333017ull, 0x5bd292103653c764ull, 0x5bd292103653c765ull, 0x5bd3fb5a68b4de2aull, 0x5bd503289990fb52ull, 0x5bd503289990fb53ull, 0x5bd5f6de9d5d6b5bull, 0x5bdcf1396c333016ull,
0x5bdcf1396c333017ull, 0x5be5f6de9d5d6b5bull, 0x5be8fa3102e215b4ull, 0x5be8fa3102e215b5ull, 0x5beaf5b5378aa2e5ull, 0x5beaf5b5378aa2e6ull, 0x5becf1396c333016ull, 0x5becf1396c333017ull,
0x5bed8d7f85027d12ull, 0x5bf5f6de9d5d6b5bull, 0x5bf9c22f112ff436ull, 0x5bf9c22f112ff437ull, 0x5bfaf5b5378aa2e5ull, 0x5bfaf5b5378aa2e6ull, 0x5bfcf1396c333016ull, 0x5bfcf1396c333017ull,
0x5c02f892431cac49ull, 0x5c02f892431cac4aull, 0x5c03d32a0e9583eaull, 0x5c05f6de9d5d6b5bull, 0x5c0af5b5378aa2e5ull, 0x5c0af5b5378aa2e6ull, 0x5c0bf37751dee97eull, 0x5c15f6de9d5d6b5bull,
0x5c19f570179466a9ull, 0x5c1af5b5378aa2e5ull, 0x5c1af5b5378aa2e6ull, 0x5c1bf37751dee97eull, 0x5c1fea7fbb3003e0ull, 0x5c24f6997d672f1eull, 0x5c24f6997d672f1full, 0x5c25f6de9d5d6b5bull,
0x5c27f6275a78e902ull, 0x5c2af5b5378aa2e5ull, 0x5c2af5b5378aa2e6ull, 0x5c2fea7fbb3003e0ull, 0x5c310c20303fe0f0ull, 0x5c310c20303fe0f1ull, 0x5c34ea0a613d62eaull, 0x5c34ea0a613d62ebull,
0x5c37efdfcc6402e8ull, 0x5c37f6275a78e902ull, 0x5c3af5b5378aa2e5ull, 0x5c3af5b5378aa2e6ull, 0x5c3ef3052ef0a361ull, 0x5c3ef3052ef0a362ull, 0x5c42fb1548bea1edull, 0x5c42fb1548bea1eeull,
0x5c44ea0a613d62eaull, 0x5c44ea0a613d62ebull, 0x5c47f6275a78e902ull, 0x5c4af5b5378aa2e5ull, 0x5c4af5b5378aa2e6ull, 0x5c4ef3052ef0a361ull, 0x5c4ef3052ef0a362ull, 0x5c51f89d83daaec1ull,
0x5c51f89d83daaec2ull, 0x5c52fb1548bea1edull, 0x5c52fb1548bea1eeull, 0x5c53f28fd4fe026cull, 0x5c5cf45d333da323ull, 0x5c5cf45d333da324ull, 0x5c5ef3052ef0a361ull, 0x5c5ef3052ef0a362ull,
0x5c63f28fd4fe026cull, 0x5c6875d15965a911ull, 0x5c6875d15965a912ull, 0x5c6cf45d333da323ull, 0x5c6cf45d333da324ull, 0x5c6df3b131172342ull, 0x5c6df3b131172343ull, 0x5c6e735b3003e352ull,
0x5c6ef3052ef0a361ull, 0x5c6ef3052ef0a362ull, 0x5c73f28fd4fe026cull, 0x5c75e184ed7cc369ull, 0x5c7bfce2a6fe42a5ull, 0x5c7cf45d333da323ull, 0x5c7cf45d333da324ull, 0x5c7e735b3003e352ull,
0x5c7ef3052ef0a361ull, 0x5c7ef3052ef0a362ull, 0x5c88ef33ca3d8307ull, 0x5c8bfce2a6fe42a5ull, 0x5c8cf45d333da323ull, 0x5c8cf45d333da324ull, 0x5c8e735b3003e352ull, 0x5c8ef3052ef0a361ull,
0x5c8ef3052ef0a362ull, 0x5c8f72af2ddd6371ull, 0x5c96d6846402ea7dull, 0x5c96d6846402ea7eull, 0x5c97562e62efaa8dull, 0x5c98ef33ca3d8307ull, 0x5c9a760b389de2d6ull, 0x5c9cf45d333da323ull,
0x5c9cf45d333da324ull, 0x5c9f72af2ddd6371ull, 0x5ca2d3d610bc03cbull, 0x5ca656da65162a6eull, 0x5ca9b29f816db2eeull, 0x5ca9b29f816db2efull, 0x5caa760b389de2d6ull, 0x5caf72af2ddd6371ull,
0x5cb3d8886a766a20ull, 0x5cb3d8886a766a21ull, 0x5cb656da65162a6eull, 0x5cb6a4f0a4acf350ull, 0x5cb6a4f0a4acf351ull, 0x5cb9b29f816db2eeull, 0x5cb9b29f816db2efull, 0x5cba760b389de2d6ull,
0x5cbae4c4c979c6efull, 0x5cbae4c4c979c6f0ull, 0x5cc0076dd6857a9bull, 0x5cc0c123cbd09fd2ull, 0x5cc0c123cbd09fd3ull, 0x5cc3d8886a766a20ull, 0x5cc3d8886a766a21ull, 0x5ccae4c4c979c6efull,
0x5ccae4c4c979c6f0ull, 0x5ccd6316c419873dull, 0x5cd0ca715d473720ull, 0x5cd3d8886a766a20ull, 0x5cd3d8886a766a21ull, 0x5cd53ebc8791aeb8ull, 0x5cd53ebc8791aeb9ull, 0x5cd54f0e30343c54ull,
0x5cdbec90fe5bb509ull, 0x5cdbec90fe5bb50aull, 0x5cde4725cc8ed25bull, 0x5cde4725cc8ed25cull, 0x5ce0ca715d473720ull, 0x5ce3d8886a766a20ull, 0x5ce3d8886a766a21ull, 0x5ce54f0e30343c54ull,
0x5ceb2925472b8522ull, 0x5cebec90fe5bb509ull, 0x5cebec90fe5bb50aull, 0x5cefad59e9aa16f3ull, 0x5cefad59e9aa16f4ull, 0x5cf017574eb994d4ull, 0x5cf3d8886a766a20ull, 0x5cf3d8886a766a21ull,
0x5cf54f0e30343c54ull, 0x5cfacf983fe4b3fcull, 0x5cfbec90fe5bb509ull, 0x5cfbec90fe5bb50aull, 0x5cffad59e9aa16f3ull, 0x5cffad59e9aa16f4ull, 0x5d0017574eb994d4ull, 0x5d02a52c6a2db4c9ull,
0x5d02a52c6a2db4caull, 0x5d03d8886a766a20ull, 0x5d03d8886a766a21ull, 0x5d0aa2d1bc414b69ull, 0x5d0e9672c4623c94ull, 0x5d0fad59e9aa16f3ull, 0x5d0fad59e9aa16f4ull, 0x5d1017574eb994d4ull,
0x5d117d8b6bd4d96cull, 0x5d13eeebac481e6aull, 0x5d1aa2d1bc414b69ull, 0x5d1efa3fdb1c74a7ull, 0x5d1efa3fdb1c74a8ull, 0x5d1fda206d4d7f86ull, 0x5d1fda206d4d7f87ull, 0x5d2000f40ce7e08aull,
0x5d2000f40ce7e08bull, 0x5d209daad9a3ce8dull, 0x5d2748deb444b4e9ull, 0x5d2748deb444b4eaull, 0x5d2aa2d1bc414b69ull, 0x5d2fda206d4d7f86ull, 0x5d2fda206d4d7f87ull, 0x5d2ff083af1f33d0ull,
0x5d302dba908b491dull, 0x5d302dba908b491eull, 0x5d3094f8a44b87eaull, 0x5d3094f8a44b87ebull, 0x5d30ab5be61d3c34ull, 0x5d324d23c932ad4full, 0x5d3748deb444b4e9ull, 0x5d3748deb444b4eaull,
0x5d3fda206d4d7f86ull, 0x5d3fda206d4d7f87ull, 0x5d4094f8a44b87eaull, 0x5d4094f8a44b87ebull, 0x5d40ab5be61d3c34ull, 0x5d4104e8ed640d5aull, 0x5d417d8b6bd4d96cull, 0x5d48eaa6975a2604ull,
0x5d48eaa6975a2605ull, 0x5d4e1a5f48eb69c8ull, 0x5d4e1a5f48eb69c9ull, 0x5d5025085b33027bull, 0x5d5094f8a44b87eaull, 0x5d5094f8a44b87ebull, 0x5d50ab5be61d3c34ull, 0x5d5254b9c8ad9da8ull,
0x5d5254b9c8ad9da9ull, 0x5d59176d1afd8e97ull, 0x5d59176d1afd8e98ull, 0x5d5d157d90e17511ull, 0x5d5d157d90e17512ull, 0x5d6025085b33027bull, 0x5d6094f8a44b87eaull, 0x5d6094f8a44b87ebull,
0x5d60ab5be61d3c34ull, 0x5d64d632dfa48b41ull, 0x5d6a673df6471ee6ull, 0x5d6f2ae90da51c98ull, 0x5d7025085b33027bull, 0x5d74d632dfa48b41ull, 0x5d7a673df6471ee6ull, 0x5d7b0012141dcd8bull,
0x5d7beaaddb70ce9bull, 0x5d7d58a7565691eeull, 0x5d86bed7d8c4ca34ull, 0x5d86bed7d8c4ca35ull, 0x5d87eb2279e12c66ull, 0x5d8a673df6471ee6ull, 0x5d8b0012141dcd8bull, 0x5d8b28f5e8dbf6c0ull,
0x5d8b28f5e8dbf6c1ull, 0x5d8d58a7565691eeull, 0x5d93cd6e78b5572cull, 0x5d93cd6e78b5572dull, 0x5d96027d80c0ed72ull, 0x5d96027d80c0ed73ull, 0x5d97eb2279e12c66ull, 0x5d99759a46ff7cf8ull,
0x5d99759a46ff7cf9ull, 0x5d9b28f5e8dbf6c0ull, 0x5d9b28f5e8dbf6c1ull, 0x5d9e1501ae5a6eb0ull, 0x5da1f059db68e14cull, 0x5da1f059db68e14dull, 0x5da3cd6e78b5572cull, 0x5da3cd6e78b5572dull,
0x5da660aaacc2dbd3ull, 0x5da660aaacc2dbd4ull, 0x5dae1501ae5a6eb0ull, 0x5daf7062e577c812ull, 0x5db01faac0a20762ull, 0x5db01faac0a20763ull, 0x5db0e162b336df3dull, 0x5db5a45054beff11ull,
0x5db5a45054beff12ull, 0x5db68fc142c3d304ull, 0x5dbde5eb1859777full, 0x5dbde5eb18597780ull, 0x5dbe1501ae5a6eb0ull, 0x5dc0e162b336df3dull, 0x5dc2cd210cf8852eull, 0x5dc68fc142c3d304ull,
0x5dc8905c1a3d7701ull, 0x5dcd2990c0559abdull, 0x5dcd2990c0559abeull, 0x5dcde5eb1859777full, 0x5dcde5eb18597780ull, 0x5dd0e162b336df3dull, 0x5dd0ebd0f212de43ull, 0x5dd2cd210cf8852eull,
0x5ddd2990c0559abdull, 0x5ddd2990c0559abeull, 0x5ddfc73b333f1e6aull, 0x5ddfc73b333f1e6bull, 0x5de0ebd0f212de43ull, 0x5de2cd210cf8852eull, 0x5de3356f81907b6aull, 0x5ded2990c0559abdull,
0x5ded2990c0559abeull, 0x5deead00a57f4a72ull, 0x5deead00a57f4a73ull, 0x5df0ebd0f212de43ull, 0x5df149b127ced579ull, 0x5df2cd210cf8852eull, 0x5dfd2990c0559abdull, 0x5dfd2990c0559abeull,
0x5dfead00a57f4a72ull, 0x5dfead00a57f4a73ull, 0x5e0053d1faee0280ull, 0x5e0053d1faee0281ull, 0x5e00ebd0f212de43ull, 0x5e02cd210cf8852eull, 0x5e0d2990c0559abdull, 0x5e0d2990c0559abeull,
0x5e0f08454b8441e7ull, 0x5e0fa2dfd2601d6bull, 0x5e12cd210cf8852eull, 0x5e13356f81907b6aull, 0x5e1780695036a679ull, 0x5e1780695036a67aull, 0x5e1876487d177972ull, 0x5e1ead00a57f4a72ull,
0x5e1ead00a57f4a73ull, 0x5e1f08454b8441e7ull, 0x5e22cd210cf8852eull, 0x5e268a8a2355d381ull, 0x5e2780695036a679ull, 0x5e2780695036a67aull, 0x5e2876487d177972ull, 0x5e2b57e603b9f25bull,
0x5e2b57e603b9f25cull, 0x5e2d9dfb6f7c84d6ull, 0x5e338245fafc63b6ull, 0x5e338245fafc63b7ull, 0x5e368a8a2355d381ull, 0x5e3780695036a679ull, 0x5e3780695036a67aull, 0x5e38358e3e3a8502ull,
0x5e3b57e603b9f25bull, 0x5e3b57e603b9f25cull, 0x5e3d9dfb6f7c84d6ull, 0x5e438245fafc63b6ull, 0x5e438245fafc63b7ull, 0x5e468a8a2355d381ull, 0x5e4780695036a679ull, 0x5e4780695036a67aull,
0x5e4d9dfb6f7c84d6ull, 0x5e4e93da9c5d57ceull, 0x5e4e93da9c5d57cfull, 0x5e4f9d0d1a19a637ull, 0x5e4f9d0d1a19a638ull, 0x5e54ec8fd70420c7ull, 0x5e54ec8fd70420c8ull, 0x5e56367c939d63a0ull,
0x5e56367c939d63a1ull, 0x5e568a8a2355d381ull, 0x5e5ce94d4b7aabc3ull, 0x5e5ee7e82c15c7afull, 0x5e6018ea74578544ull, 0x5e64ec8fd70420c7ull, 0x5e64ec8fd70420c8ull, 0x5e66367c939d63a0ull,
0x5e66367c939d63a1ull, 0x5e668a8a2355d381ull, 0x5e69b9ebb7683fa2ull, 0x5e6e42f1cdc92642ull, 0x5e6e42f1cdc92643ull, 0x5e7018ea74578544ull, 0x5e72d53854d423bcull, 0x5e768a8a2355d381ull,
0x5e78223aed5f0991ull, 0x5e78223aed5f0992ull, 0x5e7a3cb730b344f1ull, 0x5e7a3cb730b344f2ull, 0x5e7cf905112fe369ull, 0x5e7cf905112fe36aull, 0x5e8018ea74578544ull, 0x5e835b288f436760ull,
0x5e868a8a2355d381ull, 0x5e8b519c817175b2ull, 0x5e8b519c817175b3ull, 0x5e8cf905112fe369ull, 0x5e8cf905112fe36aull, 0x5e9018ea74578544ull, 0x5e935b288f436760ull, 0x5e941f25116d6695ull,
0x5e9b519c817175b2ull, 0x5e9b519c817175b3ull, 0x5e9cf905112fe369ull, 0x5e9cf905112fe36aull, 0x5e9efc225fbad412ull, 0x5ea0efc37d5afa74ull, 0x5ea41f25116d6695ull, 0x5ea587691b7e3c02ull,
0x5ea587691b7e3c03ull, 0x5ea78a866a092cabull, 0x5eacf905112fe369ull, 0x5eacf905112fe36aull, 0x5eadbd019359e29eull, 0x5eadbd019359e29full, 0x5eb0efc37d5afa74ull, 0x5eb3844bccf34b5aull,
0x5eb831f2b3144138ull, 0x5eb8e6376f8908c6ull, 0x5eb8e6376f8908c7ull, 0x5ebd93de55a9fea4ull, 0x5ebd93de55a9fea5ull, 0x5ebef2b41c4e1914ull, 0x5ebef2b41c4e1915ull, 0x5ec054ea38e0df39ull,
0x5ec22576064f30eaull, 0x5ec3844bccf34b5aull, 0x5ecd93de55a9fea4ull, 0x5ecd93de55a9fea5ull, 0x5ecef2b41c4e1914ull, 0x5ecef2b41c4e1915ull, 0x5ecf8d8d60c8344full, 0x5ecf8d8d60c83450ull,
0x5ed0077d96a3d19bull, 0x5ed0077d96a3d19cull, 0x5ed22576064f30eaull, 0x5ed3844bccf34b5aull, 0x5edd93de55a9fea4ull, 0x5edd93de55a9fea5ull, 0x5edef2b41c4e1914ull, 0x5edef2b41c4e1915ull,
0x5edf8d8d60c8344full, 0x5edf8d8d60c83450ull, 0x5ee0a256db1decd6ull, 0x5ee0a256db1decd7ull, 0x5ee5dff91926809full, 0x5ee5dff9192680a0ull, 0x5ee8655ec0301e30ull, 0x5ee8655ec0301e31ull,
0x5ee8b2cb626d2bceull, 0x5eee3e6f5fd95186ull, 0x5eeef2b41c4e1914ull, 0x5eeef2b41c4e1915ull, 0x5ef6aed387e2fd24ull, 0x5ef6aed387e2fd25ull, 0x5ef7ca857bb602f5ull, 0x5ef7ca857bb602f6ull,
0x5ef8655ec0301e30ull, 0x5ef8655ec0301e31ull, 0x5ef8b2cb626d2bceull, 0x5ef94da4a6e74709ull, 0x5efd6f94f11cd501ull, 0x5f02861889d1e0daull, 0x5f02861889d1e0dbull, 0x5f0647665084bee2ull,
0x5f07ca857bb602f5ull, 0x5f07ca857bb602f6ull, 0x5f094da4a6e74709ull, 0x5f0dd702287b1343ull, 0x5f0dd702287b1344ull, 0x5f0e921198cb6924ull, 0x5f1238abe794d33dull, 0x5f1575bba500ff85ull,
0x5f1575bba500ff86ull, 0x5f1647665084bee2ull, 0x5f1dd702287b1343ull, 0x5f1dd702287b1344ull, 0x5f1e921198cb6924ull, 0x5f1edf7e3b0876c1ull, 0x5f1edf7e3b0876c2ull, 0x5f20b58cbc638f29ull,
0x5f20b58cbc638f2aull, 0x5f2238abe794d33dull, 0x5f29db7da0d0c9f1ull, 0x5f29db7da0d0c9f2ull, 0x5f2dd702287b1343ull, 0x5f2dd702287b1344ull, 0x5f2edf7e3b0876c1ull, 0x5f2edf7e3b0876c2ull,
0x5f30b58cbc638f29ull, 0x5f30b58cbc638f2aull, 0x5f3238abe794d33dull, 0x5f3bd93fe4a5ee9aull, 0x5f3bd93fe4a5ee9bull, 0x5f3cd821069080efull, 0x5f3d1a400b33d9ceull, 0x5f3d1a400b33d9cfull,
0x5f3dd702287b1343ull, 0x5f3dd702287b1344ull, 0x5f431b4aff7f21b6ull, 0x5f431b4aff7f21b7ull, 0x5f43fdea17697030ull, 0x5f498fc3ab8a9fe8ull, 0x5f498fc3ab8a9fe9ull, 0x5f4bd93fe4a5ee9aull,
0x5f4bd93fe4a5ee9bull, 0x5f4cd821069080efull, 0x5f4d1a400b33d9ceull, 0x5f4d1a400b33d9cfull, 0x5f50ecf34093b79cull, 0x5f50ecf34093b79dull, 0x5f53fdea17697030ull, 0x5f598fc3ab8a9fe8ull,
0x5f598fc3ab8a9fe9ull, 0x5f5bd93fe4a5ee9aull, 0x5f5bd93fe4a5ee9bull, 0x5f5cd821069080efull, 0x5f5fb7452847ed5eull, 0x5f5fb7452847ed5full, 0x5f60ecf34093b79cull, 0x5f60ecf34093b79dull,
0x5f63fdea17697030ull, 0x5f6522a833f71789ull, 0x5f6cd821069080efull, 0x5f6d4c81de02ae24ull, 0x5f6e8f3e3164fbf4ull, 0x5f6e8f3e3164fbf5ull, 0x5f70ecf34093b79cull, 0x5f70ecf34093b79dull,
0x5f717e2cd47c422aull, 0x5f7522a833f71789ull, 0x5f78fd649d43cc3cull, 0x5f7c0f80ee77cdeeull, 0x5f7c0f80ee77cdefull, 0x5f7f93342f950eaeull, 0x5f7f93342f950eafull, 0x5f8147ebcaaa62d6ull,
0x5f8246ccec94f52aull, 0x5f8246ccec94f52bull, 0x5f83e996a6536e9aull, 0x5f871006689d71e2ull, 0x5f871006689d71e3ull, 0x5f88fd649d43cc3cull, 0x5f8d9571ebbfea05ull, 0x5f8d9571ebbfea06ull,
0x5f9147ebcaaa62d6ull, 0x5f92be0b75f2d92dull, 0x5f964251743f3e7cull, 0x5f964251743f3e7dull, 0x5f9aeac2d1ea2695ull, 0x5f9aeac2d1ea2696ull, 0x5f9d4f5f8fee64f1ull, 0x5f9d4f5f8fee64f2ull,
0x5fa147ebcaaa62d6ull, 0x5fa2be0b75f2d92dull, 0x5fad4f5f8fee64f1ull, 0x5fad4f5f8fee64f2ull, 0x5faee64759946fe7ull, 0x5faee64759946fe8ull, 0x5faf3cbdc494bf4bull, 0x5fb147ebcaaa62d6ull,
0x5fb2be0b75f2d92dull, 0x5fb3f059d4f4f85bull, 0x5fbee64759946fe7ull, 0x5fbee64759946fe8ull, 0x5fbf3cbdc494bf4bull, 0x5fbfd5e4f415cee2ull, 0x5fc147ebcaaa62d6ull, 0x5fc599e6bd54fb8bull,
0x5fc599e6bd54fb8cull, 0x5fc9968bccc4dbd3ull, 0x5fcb3cb71dd41a23ull, 0x5fce9211fe1f4e6full, 0x5fcf3cbdc494bf4bull, 0x5fd147ebcaaa62d6ull, 0x5fd19c21261f844eull, 0x5fd19c21261f844full,
0x5fd599e6bd54fb8bull, 0x5fd599e6bd54fb8cull, 0x5fdc3ef9d70f7158ull, 0x5fdc69a4c8accd8full, 0x5fdf3cbdc494bf4bull, 0x5fe27177de325161ull, 0x5fe27177de325162ull, 0x5fe39b03f1ba3fedull,
0x5fe599e6bd54fb8bull, 0x5fe599e6bd54fb8cull, 0x5fe6c372d0dcea17ull, 0x5fec69a4c8accd8full, 0x5fedd33146a0c66dull, 0x5ff19c21261f844eull, 0x5ff19c21261f844full, 0x5ff39b03f1ba3fedull,
0x5ff6c372d0dcea17ull, 0x5ffb968f20252e67ull, 0x5ffdd33146a0c66dull, 0x5fff6768b6321b82ull, 0x60019c21261f844eull, 0x60019c21261f844full, 0x6009813653f62db7ull, 0x6009813653f62db8ull,
0x600a4b520bbed842ull, 0x600dd33146a0c66dull, 0x600f6768b6321b82ull, 0x60119c21261f844eull, 0x60119c21261f844full, 0x60178d8e88a594a1ull, 0x60178d8e88a594a2ull, 0x6019813653f62db7ull,
0x6019813653f62db8ull, 0x601c0f41a92fcf57ull, 0x601c0f41a92fcf58ull, 0x601dd33146a0c66dull, 0x601f6768b6321b82ull, 0x6020ad8840c15a4cull, 0x60278d8e88a594a1ull, 0x60278d8e88a594a2ull,
0x602887626e4de12cull, 0x602887626e4de12dull, 0x60293dd452395e84ull, 0x60293dd452395e85ull, 0x602975fb53ac0b2full, 0x602f6768b6321b82ull, 0x6030ad8840c15a4cull, 0x60378d8e88a594a1ull,
0x60378d8e88a594a2ull, 0x603887626e4de12cull, 0x603887626e4de12dull, 0x60393dd452395e84ull, 0x60393dd452395e85ull, 0x603c6eb204ef1358ull, 0x603c6eb204ef1359ull, 0x6040ad8840c15a4cull,
0x60478d8e88a594a1ull, 0x60478d8e88a594a2ull, 0x604865b16d6f7993ull, 0x6049fe2046ca53fdull, 0x604cb2c47e7e37bfull, 0x604cb2c47e7e37c0ull, 0x6050ad8840c15a4cull, 0x6054d8ea50f1b0dfull,
0x60578d8e88a594a1ull, 0x60578d8e88a594a2ull, 0x605be68d11d0ca8aull, 0x605be68d11d0ca8bull, 0x605cb2c47e7e37bfull, 0x605cb2c47e7e37c0ull, 0x605ec87586966309ull, 0x606163fa24acd7a4ull,
0x6064d8ea50f1b0dfull, 0x60678d8e88a594a1ull, 0x60678d8e88a594a2ull, 0x6069ba0dcd3b2f96ull, 0x606cb2c47e7e37bfull, 0x606cb2c47e7e37c0ull, 0x606e8f45d1683690ull, 0x606e8f45d1683691ull,
0x607163fa24acd7a4ull, 0x60738f9cd37b8817ull, 0x60738f9cd37b8818ull, 0x60778d8e88a594a1ull, 0x60778d8e88a594a2ull, 0x607c90bb41b6a58cull, 0x607dfc11fbf46087ull, 0x607e8f45d1683690ull,
0x607e8f45d1683691ull, 0x60828a61cf9483b7ull, 0x60838f9cd37b8817ull, 0x60838f9cd37b8818ull, 0x6084b6e1142a1eabull, 0x6084b6e1142a1eacull, 0x60878d8e88a594a1ull, 0x60878d8e88a594a2ull,
0x608dfc11fbf46087ull, 0x60928a61cf9483b7ull, 0x6096d7e32b86b724ull, 0x609d68de26808a7dull, 0x609d68de26808a7eull, 0x609dfc11fbf46087ull, 0x60a28a61cf9483b7ull, 0x60a84339e5c4721full,
0x60aa69fa93bd8bd5ull, 0x60aa69fa93bd8bd6ull, 0x60ad68de26808a7dull, 0x60ad68de26808a7eull, 0x60adfc11fbf46087ull, 0x60b28a61cf9483b7ull, 0x60b4b401c8dbde0cull, 0x60b4b401c8dbde0dull,
0x60bb1fa5f0dc6953ull, 0x60bc9c386eefa808ull, 0x60bdfc11fbf46087ull, 0x60c28a61cf9483b7ull, 0x60c6899e6568f002ull, 0x60c6899e6568f003ull, 0x60c7934d1f4215dfull, 0x60c7934d1f4215e0ull,
0x60cc8ddbf66864edull, 0x60cdfc11fbf46087ull, 0x60d06c3f03862bddull, 0x60d06c3f03862bdeull, 0x60d28a61cf9483b7ull, 0x60d92c988e63dacaull, 0x60d92c988e63dacbull, 0x60d9b16feb506db9ull,
0x60dd44f6f92e62baull, 0x60ddfc11fbf46087ull, 0x60e06c3f03862bddull, 0x60e06c3f03862bdeull, 0x60e28a61cf9483b7ull, 0x60ea7e15a2e1502eull, 0x60ea7e15a2e1502full, 0x60ed44f6f92e62baull,
0x60eda0847a9161a0ull, 0x60eda0847a9161a1ull, 0x60edfc11fbf46087ull, 0x60f28a61cf9483b7ull, 0x60f64f46bc45c8f2ull, 0x60fb26d42d200ae0ull, 0x60fb26d42d200ae1ull, 0x60fd44f6f92e62baull,
0x60fdfc11fbf46087ull, 0x60ff0eba801d5d3aull, 0x60ff0eba801d5d3bull, 0x610236028a75265eull, 0x61028a61cf9483b7ull, 0x6105f3b93ae2ca0bull, 0x6105f3b93ae2ca0cull, 0x610883da04252018ull,
0x610883da04252019ull, 0x610b7b33723f6839ull, 0x610b7b33723f683aull, 0x610f0eba801d5d3aull, 0x610f0eba801d5d3bull, 0x611236028a75265eull, 0x61128a61cf9483b7ull, 0x6115f3b93ae2ca0bull,
0x6115f3b93ae2ca0cull, 0x611a29b65dc1f2d5ull, 0x611a29b65dc1f2d6ull, 0x611a8139dd8013a3ull, 0x611b7b33723f6839ull, 0x611b7b33723f683aull, 0x612236028a75265eull, 0x61228a61cf9483b7ull,
0x612491daad0ba280ull, 0x612afca48a905c34ull, 0x612b7b33723f6839ull, 0x612b7b33723f683aull, 0x612be3186b573b2eull, 0x612be3186b573b2full, 0x6130045a0a6e58e8ull, 0x6130045a0a6e58e9ull,
0x61328a61cf9483b7ull, 0x61335d4ffc62ed15ull, 0x61335d4ffc62ed16ull, 0x613491daad0ba280ull, 0x6136c3832d126ff5ull, 0x6136c3832d126ff6ull, 0x613afca48a905c34ull, 0x6140045a0a6e58e8ull,
0x6140045a0a6e58e9ull, 0x61435d4ffc62ed15ull, 0x61435d4ffc62ed16ull, 0x614491daad0ba280ull, 0x6146c3832d126ff5ull, 0x6146c3832d126ff6ull, 0x614afca48a905c34ull, 0x6150045a0a6e58e8ull,
0x6150045a0a6e58e9ull, 0x615363ee9bc0646full, 0x61543d7b67ec4527ull, 0x615491daad0ba280ull, 0x615a1c791f070422ull, 0x615a1c791f070423ull, 0x6160045a0a6e58e8ull, 0x6160045a0a6e58e9ull,
0x6160a338fb31894cull, 0x6160a338fb31894dull, 0x6160dde6d69a39a0ull, 0x6160dde6d69a39a1ull, 0x6169b651584e8b20ull, 0x616d7c0db0590fa9ull, 0x616ffb76d621c31eull, 0x6170045a0a6e58e8ull,
0x6170045a0a6e58e9ull, 0x6170dde6d69a39a0ull, 0x6170dde6d69a39a1ull, 0x6179b651584e8b20ull, 0x617f9bedaec6c175ull, 0x617ffb76d621c31eull, 0x6180045a0a6e58e8ull, 0x6180045a0a6e58e9ull,
0x6180dde6d69a39a0ull, 0x6180dde6d69a39a1ull, 0x61832d8b68b56c41ull, 0x618348bd023ae858ull, 0x61868d1ffa0777c7ull, 0x61868d1ffa0777c8ull, 0x6188dcc48c22aa68ull, 0x6190045a0a6e58e8ull,
0x6190045a0a6e58e9ull, 0x619011f2d73116f4ull, 0x61932d8b68b56c41ull, 0x61968d1ffa0777c7ull, 0x61968d1ffa0777c8ull, 0x6198dcc48c22aa68ull, 0x619d4c491cab8ed4ull, 0x619d4c491cab8ed5ull,
0x61a011f2d73116f4ull, 0x61a1ccbdb8fdbdc7ull, 0x61a2a5936919ffceull, 0x61a9a8b88b8bcd14ull, 0x61a9a8b88b8bcd15ull, 0x61ad4c491cab8ed4ull, 0x61ad4c491cab8ed5ull, 0x61b011f2d73116f4ull,
0x61b19fbf1ff3419aull, 0x61b19fbf1ff3419bull, 0x61b2a5936919ffceull, 0x61bd4c491cab8ed4ull, 0x61bd4c491cab8ed5ull, 0x61bf13f5af2b5502ull, 0x61c011f2d73116f4ull, 0x61c117c72057d527ull,
0x61c117c72057d528ull, 0x61c19fbf1ff3419aull, 0x61c19fbf1ff3419bull, 0x61cd4c491cab8ed4ull, 0x61cd4c491cab8ed5ull, 0x61ceda15656db97bull, 0x61cf13f5af2b5502ull, 0x61d151a76a1570aeull,
0x61d151a76a1570afull, 0x61d4166f8cfd5cb1ull, 0x61d5a43bd5bf8757ull, 0x61d5a43bd5bf8758ull, 0x61d74ef843607fc1ull, 0x61d74ef843607fc2ull, 0x61d9bceff7ac0279ull, 0x61d9bceff7ac027aull,
0x61dd4c491cab8ed4ull, 0x61dd4c491cab8ed5ull, 0x61e151a76a1570aeull, 0x61e151a76a1570afull, 0x61e288a3443b320aull, 0x61e288a3443b320bull, 0x61e4166f8cfd5cb1ull, 0x61e5874bb0e0b994ull,
0x61e5a43bd5bf8757ull, 0x61e5a43bd5bf8758ull, 0x61ea4da0b006074bull, 0x61f288a3443b320aull, 0x61f288a3443b320bull, 0x61f4166f8cfd5cb1ull, 0x61f5874bb0e0b994ull, 0x61f9e2f1949dc930ull,
0x61f9e2f1949dc931ull, 0x61fc154d4285cd78ull, 0x61fc154d4285cd79ull, 0x61ffaf739c3e35b0ull, 0x62002578c4a88b2full, 0x620151a76a1570aeull, 0x620151a76a1570afull, 0x620288a3443b320aull,
0x620288a3443b320bull, 0x62032eee6606ee95ull, 0x620c154d4285cd78ull, 0x620c154d4285cd79ull, 0x620faf739c3e35b0ull, 0x62102578c4a88b2full, 0x621151a76a1570aeull, 0x621151a76a1570afull,
0x6217c396b52ea844ull, 0x621a74802b4abf76ull, 0x621a74802b4abf77ull, 0x621ae91e9d18e7f9ull, 0x621ec636b8a1e4abull, 0x62202578c4a88b2full, 0x6223cda841a6e18eull, 0x622ae91e9d18e7f9ull,
0x622e6a6e9ed2862cull, 0x622e6a6e9ed2862dull, 0x622ec636b8a1e4abull, 0x622f889420f97d84ull, 0x622f889420f97d85ull, 0x6231d2b107e2fe33ull, 0x6233cda841a6e18eull, 0x62367e91b7c2f8c0ull,
0x62367e91b7c2f8c1ull, 0x623ae91e9d18e7f9ull, 0x623cd7aaaadd6652ull, 0x623e6a6e9ed2862cull, 0x623e6a6e9ed2862dull, 0x6243cda841a6e18eull, 0x62451d7a73cb6ceeull, 0x62467e91b7c2f8c0ull,
0x62467e91b7c2f8c1ull, 0x624be064a3fb2725ull, 0x624be064a3fb2726ull, 0x624cd7aaaadd6652ull, 0x624ec636b8a1e4abull, 0x6253cda841a6e18eull, 0x6255a1c000260cbdull, 0x6255a1c000260cbeull,
0x6259f1d89636a8ccull, 0x6259f1d89636a8cdull, 0x625b71fbc82cb124ull, 0x625be064a3fb2725ull, 0x625be064a3fb2726ull, 0x625ec636b8a1e4abull, 0x62618b27a759405dull, 0x6264aa79f943cd91ull,
0x62679fd204e9c959ull, 0x6268c112521099f1ull, 0x6268c112521099f2ull, 0x626c933c155381bcull, 0x626c933c155381bdull, 0x626ec636b8a1e4abull, 0x62718b27a759405dull, 0x6274aa79f943cd91ull,
0x6278c112521099f1ull, 0x6278c112521099f2ull, 0x62797ed81baf096full, 0x62797ed81baf0970ull, 0x6279b85858f2d91eull, 0x6279f1d89636a8ccull, 0x6279f1d89636a8cdull, 0x6280c35312de9d10ull,
0x6284aa79f943cd91ull, 0x62873169291b5357ull, 0x62873169291b5358ull, 0x628988e6e68b3d3eull, 0x628988e6e68b3d3full, 0x6289b85858f2d91eull, 0x6289f1d89636a8ccull, 0x6289f1d89636a8cdull,
0x6290c35312de9d10ull, 0x629988e6e68b3d3eull, 0x629988e6e68b3d3full, 0x6299b85858f2d91eull, 0x6299f1d89636a8ccull, 0x6299f1d89636a8cdull, 0x629b18900f8083d8ull, 0x629b18900f8083d9ull,
0x62a0c35312de9d10ull, 0x62a34a4242b622d6ull, 0x62a34a4242b622d7ull, 0x62a97ed81baf096full, 0x62a97ed81baf0970ull, 0x62a9f1d89636a8ccull, 0x62a9f1d89636a8cdull, 0x62aa9e594e0217d8ull,
0x62ab18900f8083d8ull, 0x62ab18900f8083d9ull, 0x62b0c35312de9d10ull, 0x62b34a4242b622d6ull, 0x62b34a4242b622d7ull, 0x62b3f6c2fa8191e2ull, 0x62b6e7bb4ac8dc94ull, 0x62b6e7bb4ac8dc95ull,
0x62b97ed81baf096full, 0x62b97ed81baf0970ull, 0x62bd0c2382b31c19ull, 0x62c0a2f7d0c14ee7ull, 0x62c0c35312de9d10ull, 0x62c4cf50e86d08f2ull, 0x62c4cf50e86d08f3ull, 0x62c4f427d7964454ull,
0x62ccd2a3456f4c6aull, 0x62ccd2a3456f4c6bull, 0x62cd0c2382b31c19ull, 0x62d0a2f7d0c14ee7ull, 0x62d0c35312de9d10ull, 0x62d3c31bb73f1f21ull, 0x62d3c31bb73f1f22ull, 0x62d4f427d7964454ull,
0x62d90025ad24b036ull, 0x62d90025ad24b037ull, 0x62de7c88da4f6de8ull, 0x62e0a2f7d0c14ee7ull, 0x62e0e82a0207d871ull, 0x62e0e82a0207d872ull, 0x62e2920f96e7f9efull, 0x62e4f427d7964454ull,
0x62e90025ad24b036ull, 0x62e90025ad24b037ull, 0x62ecd2a3456f4c6aull, 0x62ecd2a3456f4c6bull, 0x62f255a2dca37bc9ull, 0x62f255a2dca37bcaull, 0x62f2920f96e7f9efull, 0x62f661a0b231e7acull,
0x62fa3131cd7bd569ull, 0x62fcd2a3456f4c6aull, 0x62fcd2a3456f4c6bull, 0x630255a2dca37bc9ull, 0x630255a2dca37bcaull, 0x6302920f96e7f9efull, 0x630661a0b231e7acull, 0x630a3131cd7bd569ull,
0x630ae7ee3ac9a715ull, 0x630cd2a3456f4c6aull, 0x630cd2a3456f4c6bull, 0x6312920f96e7f9efull, 0x631767cb0648a583ull, 0x631849693fd6de8aull, 0x631849693fd6de8bull, 0x631a3131cd7bd569ull,
0x631c56dd53e5a1a8ull, 0x631c56dd53e5a1a9ull, 0x6322920f96e7f9efull, 0x6324fced4e984fb9ull, 0x632a3131cd7bd569ull, 0x632c18fa5b20cc47ull, 0x632c18fa5b20cc48ull, 0x632fc999fa084f54ull,
0x6332920f96e7f9efull, 0x6332b101134a649full, 0x6332b101134a64a0ull, 0x633a3131cd7bd569ull, 0x633c18fa5b20cc47ull, 0x633c18fa5b20cc48ull, 0x633cfd65e3c2125eull, 0x633cfd65e3c2125full,
0x633d10863e3421cbull, 0x633d10863e3421ccull, 0x6342920f96e7f9efull, 0x6342b101134a649full, 0x6342b101134a64a0ull, 0x634764fdb7359873ull, 0x634764fdb7359874ull, 0x63489d39e220d068ull,
0x634c75ced0480c59ull, 0x6352920f96e7f9efull, 0x63550aff653ffe89ull, 0x63550aff653ffe8aull, 0x635764fdb7359873ull, 0x635764fdb7359874ull, 0x635783ef33980324ull, 0x635ee0ac87f86223ull,
0x6362920f96e7f9efull, 0x63650aff653ffe89ull, 0x63650aff653ffe8aull, 0x636637fe8e3acb7eull, 0x636637fe8e3acb7full, 0x636783ef33980324ull, 0x6368b95e0f702e09ull, 0x6372920f96e7f9efull,
0x63750aff653ffe89ull, 0x63750aff653ffe8aull, 0x6375a17ef9bd6504ull, 0x637aebfb3225ff52ull, 0x637aebfb3225ff53ull, 0x637eeebe9ea010f3ull, 0x637eeebe9ea010f4ull, 0x6382920f96e7f9efull,
0x63850aff653ffe89ull, 0x63850aff653ffe8aull, 0x6387fb7d4bb2feeeull, 0x638d64eb007e03edull, 0x638eeebe9ea010f3ull, 0x638eeebe9ea010f4ull, 0x638efcd0b547bfc4ull, 0x6392920f96e7f9efull,
0x63950aff653ffe89ull, 0x63950aff653ffe8aull, 0x63973d9c87f5cfd3ull, 0x6397fb7d4bb2feeeull, 0x639eeebe9ea010f3ull, 0x639eeebe9ea010f4ull, 0x63a35e02714cd7daull, 0x63a35e02714cd7dbull,
0x63a50aff653ffe89ull, 0x63a50aff653ffe8aull, 0x63a546c6714d7c6eull, 0x63a546c6714d7c6full, 0x63a7fb7d4bb2feeeull, 0x63ab09deb82cbe45ull, 0x63aeeebe9ea010f3ull, 0x63aeeebe9ea010f4ull,
0x63b1672c5aa48476ull, 0x63b1fc9df8c63f32ull, 0x63b1fc9df8c63f33ull, 0x63b35e02714cd7daull, 0x63b35e02714cd7dbull, 0x63b546c6714d7c6eull, 0x63b546c6714d7c6full, 0x63bb45a5c43a3c2aull,
0x63beeebe9ea010f3ull, 0x63beeebe9ea010f4ull, 0x63c1fc9df8c63f32ull, 0x63c1fc9df8c63f33ull, 0x63c546c6714d7c6eull, 0x63c546c6714d7c6full, 0x63c9266087f67467ull, 0x63cdfa5c9e9fbea9ull,
0x63cdfa5c9e9fbeaaull, 0x63ceeebe9ea010f3ull, 0x63ceeebe9ea010f4ull, 0x63cf9f70dae35d47ull, 0x63cf9f70dae35d48ull, 0x63d8ce0769d4ce3dull, 0x63d9266087f67467ull, 0x63d9a09187f69d8cull,
0x63ddfa5c9e9fbea9ull, 0x63ddfa5c9e9fbeaaull, 0x63decce6bcc18df8ull, 0x63decce6bcc18df9ull, 0x63deeebe9ea010f3ull, 0x63deeebe9ea010f4ull, 0x63e1591a43fcd5a5ull, 0x63e1591a43fcd5a6ull,
0x63e5c0f7714da593ull, 0x63e5c0f7714da594ull, 0x63e9266087f67467ull, 0x63e9a09187f69d8cull, 0x63ec2dbccbee77b6ull, 0x63ec2dbccbee77b7ull, 0x63edfa5c9e9fbea9ull, 0x63edfa5c9e9fbeaaull,
0x63f12a13daa46fe3ull, 0x63f12a13daa46fe4ull, 0x63f1591a43fcd5a5ull, 0x63f1591a43fcd5a6ull, 0x63f3386d25f8f629ull, 0x63fc8bc99e9f433aull, 0x63fc8bc99e9f433bull, 0x63fdbd441e9faa17ull,
0x63fdfa5c9e9fbea9ull, 0x63fdfa5c9e9fbeaaull, 0x6400045af4fa2277ull, 0x6400045af4fa2278ull, 0x64012a13daa46fe3ull, 0x64012a13daa46fe4ull, 0x640c8bc99e9f433aull, 0x640c8bc99e9f433bull,
0x640dbd441e9faa17ull, 0x640dfa5c9e9fbea9ull, 0x640dfa5c9e9fbeaaull, 0x6410045af4fa2277ull, 0x6410045af4fa2278ull, 0x64112a13daa46fe3ull, 0x64112a13daa46fe4ull, 0x6416daeebca1d98full,
0x641a336dfacbc442ull, 0x641d67802bca97f3ull, 0x641d67802bca97f4ull, 0x6420045af4fa2277ull, 0x6420045af4fa2278ull, 0x6420973767cf492dull, 0x6420973767cf492eull, 0x64212a13daa46fe3ull,
0x64212a13daa46fe4ull, 0x6421591a43fcd5a5ull, 0x6421591a43fcd5a6ull, 0x642c744669f31059ull, 0x642c744669f3105aull, 0x642c978b38f55cabull, 0x64304dc92e64b5d2ull, 0x64304dc92e64b5d3ull,
0x6430973767cf492dull, 0x6430973767cf492eull, 0x64311e52404e5673ull, 0x64312a13daa46fe3ull, 0x64312a13daa46fe4ull, 0x6436e6b056f7f2ffull, 0x6436e6b056f7f300ull, 0x643f75d9771f1e39ull,
0x64404dc92e64b5d2ull, 0x64404dc92e64b5d3ull, 0x644072804b19ff80ull, 0x64412a13daa46fe3ull, 0x64412a13daa46fe4ull, 0x6446e6b056f7f2ffull, 0x6446e6b056f7f300ull, 0x644f75d9771f1e39ull,
0x645072804b19ff80ull, 0x6450a8c238f1580eull, 0x6456e6b056f7f2ffull, 0x6456e6b056f7f300ull, 0x645f75d9771f1e39ull, 0x645fb0a17acd9d6bull, 0x645fb0a17acd9d6cull, 0x646072804b19ff80ull,
0x6460a8c238f1580eull, 0x646350ce8943c10eull, 0x6467f42ce11c8edcull, 0x6467f42ce11c8eddull, 0x646f75d9771f1e39ull, 0x646fb0a17acd9d6bull, 0x646fb0a17acd9d6cull, 0x647072804b19ff80ull,
0x647350ce8943c10eull, 0x6474b4340e028864ull, 0x6474b4340e028865ull, 0x6479635400316fa3ull, 0x6479635400316fa4ull, 0x647c10ccf3e30ebcull, 0x647c10ccf3e30ebdull, 0x647f75d9771f1e39ull,
0x64808a037fc63261ull, 0x648350ce8943c10eull, 0x64848f205de07f60ull, 0x64877aff17801711ull, 0x64877aff17801712ull, 0x648e5c9b52a468ebull, 0x648e5c9b52a468ecull, 0x648f75d9771f1e39ull,
0x64908a037fc63261ull, 0x649350ce8943c10eull, 0x64948f205de07f60ull, 0x649a027cea7fceccull, 0x649a027cea7fcecdull, 0x649e5c9b52a468ebull, 0x649e5c9b52a468ecull, 0x649fc000d7633042ull,
0x64a350ce8943c10eull, 0x64a48f205de07f60ull, 0x64a825022b94b151ull, 0x64a825022b94b152ull, 0x64ab40cebf1c8d1eull, 0x64ab40cebf1c8d1full, 0x64af264501f7eea4ull, 0x64af264501f7eea5ull,
0x64afc000d7633042ull, 0x64b08a037fc63261ull, 0x64b4deb4d307aef4ull, 0x64b4deb4d307aef5ull, 0x64b7d000a18a6431ull, 0x64b7d000a18a6432ull, 0x64b825022b94b151ull, 0x64b825022b94b152ull,
0x64b9b2e875589f38ull, 0x64bdc1f79b256182ull, 0x64c00a8130b6beb1ull, 0x64c08a037fc63261ull, 0x64c4deb4d307aef4ull, 0x64c4deb4d307aef5ull, 0x64c825022b94b151ull, 0x64c825022b94b152ull,
0x64c9b2e875589f38ull, 0x64cf6aff4d58e322ull, 0x64d00a8130b6beb1ull, 0x64d08a037fc63261ull, 0x64d3462e5802776aull, 0x64d7fa81668f8ac1ull, 0x64d7fa81668f8ac2ull, 0x64d825022b94b151ull,
0x64d825022b94b152ull, 0x64db4b6ef05dd6c2ull, 0x64db4b6ef05dd6c3ull, 0x64e00a8130b6beb1ull, 0x64e00fd149576383ull, 0x64e01fc1933951f9ull, 0x64e7fa81668f8ac1ull, 0x64e7fa81668f8ac2ull,
0x64e81a61fa5367adull, 0x64e81a61fa5367aeull, 0x64ee81cbff08eaa9ull, 0x64ee81cbff08eaaaull, 0x64f00fd149576383ull, 0x64f01fc1933951f9ull, 0x64f725fd8d75c9f1ull, 0x64f725fd8d75c9f2ull,
0x64f7fa81668f8ac1ull, 0x64f7fa81668f8ac2ull, 0x64f81511e1b2c2dbull, 0x64f81511e1b2c2dcull, 0x65000fd149576383ull, 0x65001fc1933951f9ull, 0x65081511e1b2c2dbull, 0x65081511e1b2c2dcull,
0x650f35de571272eeull, 0x65100fd149576383ull, 0x6510127955a7b5ecull, 0x65101fc1933951f9ull, 0x65181511e1b2c2dbull, 0x65181511e1b2c2dcull, 0x65181665e7daec10ull, 0x651fbab0bec28b70ull,
0x6520127955a7b5ecull, 0x65201fc1933951f9ull, 0x65212966629982fdull, 0x65281511e1b2c2dbull, 0x65281511e1b2c2dcull, 0x652fbab0bec28b70ull, 0x652ffd19f29a97b1ull, 0x6530127955a7b5ecull,
0x65301fc1933951f9ull, 0x65380e6dc2e9f4d5ull, 0x6538720b90ae0736ull, 0x6538720b90ae0737ull, 0x653c19b0371cb056ull, 0x653c19b0371cb057ull, 0x653fbab0bec28b70ull, 0x6540127955a7b5ecull,
0x65441717ab11a367ull, 0x6547cc048f11e894ull, 0x65480e6dc2e9f4d5ull, 0x6548720b90ae0736ull, 0x6548720b90ae0737ull, 0x654e1bff61d1a714ull, 0x6553d4ae77399726ull, 0x65541717ab11a367ull,
0x6555d9ef8a3d8cacull, 0x6555d9ef8a3d8cadull, 0x655612c2b6fdcc1eull, 0x65591812924a25d9ull, 0x655c6961a88658a4ull, 0x655c6961a88658a5ull, 0x6561d9036b4d6e6full, 0x6563d4ae77399726ull,
0x656514ed3107b7c2ull, 0x656514ed3107b7c3ull, 0x656612c2b6fdcc1eull, 0x65691812924a25d9ull, 0x656e650cb472815bull, 0x656e650cb472815cull, 0x65708e12093e5916ull, 0x65708e12093e5917ull,
0x6570db2de5575a13ull, 0x6570db2de5575a14ull, 0x6573d4ae77399726ull, 0x6576766084c1de7full, 0x6576766084c1de80ull, 0x657a999ddec72acaull, 0x657f62e23a6895b7ull, 0x6582d17f9d23086cull,
0x6582d17f9d23086dull, 0x6583d4ae77399726ull, 0x658a999ddec72acaull, 0x658b6b8c22904449ull, 0x658b977364bd3f25ull, 0x658b977364bd3f26ull, 0x6597a01d4ce4edb7ull, 0x6597a01d4ce4edb8ull,
0x6598c9da1507fcefull, 0x6598c9da1507fcf0ull, 0x65991812924a25d9ull, 0x659a999ddec72acaull, 0x659b977364bd3f25ull, 0x659b977364bd3f26ull, 0x659c9548eab35381ull, 0x65a2aaf1af1687eeull,
0x65a3f33667156017ull, 0x65a3f33667156018ull, 0x65a4f10bed0b7473ull, 0x65a7a01d4ce4edb7ull, 0x65a7a01d4ce4edb8ull, 0x65a8c9da1507fcefull, 0x65a8c9da1507fcf0ull, 0x65ac9548eab35381ull,
0x65b2aaf1af1687eeull, 0x65b2f560e11f4bbcull, 0x65b3f33667156017ull, 0x65b3f33667156018ull, 0x65b8c9da1507fcefull, 0x65b8c9da1507fcf0ull, 0x65bc9548eab35381ull, 0x65be6bbc5d9b1a51ull,
0x65c25cb931d45f04ull, 0x65c25cb931d45f05ull, 0x65c2aaf1af1687eeull, 0x65c2f560e11f4bbcull, 0x65c7c554e5e94f9eull, 0x65c7c554e5e94f9full, 0x65cc4ea303e3f4ceull, 0x65cc4ea303e3f4cfull,
0x65cd749680cd9eebull, 0x65d2aaf1af1687eeull, 0x65d2f560e11f4bbcull, 0x65d755ae1adc29e9ull, 0x65d755ae1adc29eaull, 0x65dc82ad1e31228dull, 0x65dc82ad1e31228eull, 0x65dcba8083b7b568ull,
0x65dd749680cd9eebull, 0x65e096b4c4fb6244ull, 0x65e096b4c4fb6245ull, 0x65e307fcada17cafull, 0x65e307fcada17cb0ull, 0x65e755ae1adc29e9ull, 0x65e755ae1adc29eaull, 0x65e7b2b919671eabull,
0x65ed749680cd9eebull, 0x65eee1593a550c05ull, 0x65f307fcada17cafull, 0x65f307fcada17cb0ull, 0x65f4d933a6584477ull, 0x65f755ae1adc29e9ull, 0x65f755ae1adc29eaull, 0x65f7b2b919671eabull,
0x65fee1593a550c05ull, 0x65fff110f551845dull, 0x65fff110f551845eull, 0x660307fcada17cafull, 0x660307fcada17cb0ull, 0x6604d933a6584477ull, 0x66052ed5643ed34cull, 0x66052ed5643ed34dull,
0x660b4a0929de1558ull, 0x660ee1593a550c05ull, 0x660ff110f551845dull, 0x660ff110f551845eull, 0x661307fcada17cafull, 0x661307fcada17cb0ull, 0x66141b6908f027feull, 0x66152ed5643ed34cull,
0x66152ed5643ed34dull, 0x661d15b1321990aeull, 0x661d15b1321990afull, 0x661ee1593a550c05ull, 0x661f9b6f376af588ull, 0x662307fcada17cafull, 0x662307fcada17cb0ull, 0x66252ed5643ed34cull,
0x66252ed5643ed34dull, 0x6626432ee7a20b58ull, 0x6626432ee7a20b59ull, 0x662d15b1321990aeull, 0x662d15b1321990afull, 0x662ee1593a550c05ull, 0x662f9b6f376af588ull, 0x6637b49369903826ull,
0x66380ed6efdd86afull, 0x663ae594eaaebaaaull, 0x663ae594eaaebaabull, 0x663d15b1321990aeull, 0x663d15b1321990afull, 0x663f9b6f376af588ull, 0x6643c12582a2d975ull, 0x6647b49369903826ull,
0x66480ed6efdd86afull, 0x664ae594eaaebaaaull, 0x664ae594eaaebaabull, 0x664d15b1321990aeull, 0x664d15b1321990afull, 0x6653c12582a2d975ull, 0x66548e8e55042a03ull, 0x66580ed6efdd86afull,
0x665d15b1321990aeull, 0x665d15b1321990afull, 0x665ed902d19c195bull, 0x665ed902d19c195cull, 0x665f0f6825904007ull, 0x6661c76e8f2c2a1cull, 0x6661c76e8f2c2a1dull, 0x6663c12582a2d975ull,
0x666d15b1321990aeull, 0x666d15b1321990afull, 0x666e16966bcd3d2full, 0x666ed902d19c195bull, 0x666ed902d19c195cull, 0x666f0f6825904007ull, 0x6671c76e8f2c2a1cull, 0x6671c76e8f2c2a1dull,
0x6673c12582a2d975ull, 0x66764eb2a270d859ull, 0x6678ebddf7380b52ull, 0x667c43a69751806dull, 0x667d15b1321990aeull, 0x667d15b1321990afull, 0x6681c76e8f2c2a1cull, 0x6681c76e8f2c2a1dull,
0x6683c12582a2d975ull, 0x66864eb2a270d859ull, 0x66865681bced7263ull, 0x66865681bced7264ull, 0x668d15b1321990aeull, 0x668d15b1321990afull, 0x668fe941dad4ea53ull, 0x66912bc948584086ull,
0x66912bc948584087ull, 0x6691ee57e0e12482ull, 0x6693c12582a2d975ull, 0x6693e80ed457d3daull, 0x6693e80ed457d3dbull, 0x6699fc1d0070dc49ull, 0x6699fc1d0070dc4aull, 0x669e16966bcd3d2full,
0x66a01b8a3f1f6f8full, 0x66a12bc948584086ull, 0x66a12bc948584087ull, 0x66a1ee57e0e12482ull, 0x66abceeaa232913cull, 0x66abceeaa232913dull, 0x66acdf3ac4c8661bull, 0x66acdf3ac4c8661cull,
0x66b01b8a3f1f6f8full, 0x66b1ee57e0e12482ull, 0x66b9398e67e7f84eull, 0x66bbceeaa232913cull, 0x66bbceeaa232913dull, 0x66bcdf3ac4c8661bull, 0x66bcdf3ac4c8661cull, 0x66c01b8a3f1f6f8full,
0x66c1ee57e0e12482ull, 0x66c75354a9fa481cull, 0x66ccb85173136bb6ull, 0x66ce202a472932ffull, 0x66ce202a47293300ull, 0x66d1ee57e0e12482ull, 0x66d669edd9196da2ull, 0x66d669edd9196da3ull,
0x66d719105576565full, 0x66dcb85173136bb6ull, 0x66dd980235de4890ull, 0x66e1ee57e0e12482ull, 0x66e669edd9196da2ull, 0x66e669edd9196da3ull, 0x66e9e8b0e444e10aull, 0x66e9e8b0e444e10bull,
0x66ec3ec30397ffa9ull, 0x66ec3ec30397ffaaull, 0x66ecb85173136bb6ull, 0x66ed980235de4890ull, 0x66f1ee57e0e12482ull, 0x66f58a3d164e90c8ull, 0x66f58a3d164e90c9ull, 0x66f669edd9196da2ull,
0x66f669edd9196da3ull, 0x66f9e8b0e444e10aull, 0x66f9e8b0e444e10bull, 0x66fd980235de4890ull, 0x66fdcfee6690ffc6ull, 0x66fdcfee6690ffc7ull, 0x67058a3d164e90c8ull, 0x67058a3d164e90c9ull,
0x670669edd9196da2ull, 0x670669edd9196da3ull, 0x670719105576565full, 0x670859dda51d1b74ull, 0x670dcfee6690ffc6ull, 0x670dcfee6690ffc7ull, 0x670ee78b5a0e93d7ull, 0x6716a1da09cc24d9ull,
0x6717b976fd49b8e9ull, 0x6717b976fd49b8eaull, 0x671859dda51d1b74ull, 0x671a1cee1fd536b4ull, 0x671a1cee1fd536b5ull, 0x671dcfee6690ffc6ull, 0x671dcfee6690ffc7ull, 0x6726a1da09cc24d9ull,
0x6727b976fd49b8e9ull, 0x6727b976fd49b8eaull, 0x672a1cee1fd536b4ull, 0x672a1cee1fd536b5ull, 0x672bf66e43331b3dull, 0x672bf66e43331b3eull, 0x672dcfee6690ffc6ull, 0x672dcfee6690ffc7ull,
0x6734906db5bb8919ull, 0x6734906db5bb891aull, 0x6737b976fd49b8e9ull, 0x6737b976fd49b8eaull, 0x673ac4b2b1ed5c58ull, 0x673dcfee6690ffc6ull, 0x673dcfee6690ffc7ull, 0x673e70550e646251ull,
0x6747b976fd49b8e9ull, 0x6747b976fd49b8eaull, 0x6749302e0e264470ull, 0x674ac4b2b1ed5c58ull, 0x674dcfee6690ffc6ull, 0x674dcfee6690ffc7ull, 0x674e70550e646251ull, 0x675378d0c23df509ull,
0x6754138605720542ull, 0x6757b976fd49b8e9ull, 0x6757b976fd49b8eaull, 0x6759302e0e264470ull, 0x675dcfee6690ffc6ull, 0x675dcfee6690ffc7ull, 0x6760baefaf3459b7ull, 0x6762e4228a9cb354ull,
0x676378d0c23df509ull, 0x6767b976fd49b8e9ull, 0x6767b976fd49b8eaull, 0x676dcfee6690ffc6ull, 0x676dcfee6690ffc7ull, 0x6770baefaf3459b7ull, 0x6774b3ecad4567ccull, 0x6774b3ecad4567cdull,
0x677a77581053543bull, 0x677a77581053543cull, 0x677bfa1d38557ccaull, 0x677dcfee6690ffc6ull, 0x677dcfee6690ffc7ull, 0x677f7c3991afd58cull, 0x6780baefaf3459b7ull, 0x6784fb95ea401d97ull,
0x6784fb95ea401d98ull, 0x678a77581053543bull, 0x678a77581053543cull, 0x678bb273fb5ac6ffull, 0x678dcfee6690ffc6ull, 0x678dcfee6690ffc7ull, 0x678f7c3991afd58cull, 0x67916a67f3f6c08bull,
0x67916a67f3f6c08cull, 0x6794fb95ea401d97ull, 0x6794fb95ea401d98ull, 0x67979d2b2d43e029ull, 0x679a77581053543bull, 0x679a77581053543cull, 0x679bd64899d821e4ull, 0x679bd64899d821e5ull,
0x679dcfee6690ffc6ull, 0x679dcfee6690ffc7ull, 0x67a16a67f3f6c08bull, 0x67a16a67f3f6c08cull, 0x67a4d7c14bc2c2b2ull, 0x67a5f0e002250a63ull, 0x67a5f0e002250a64ull, 0x67abd64899d821e4ull,
0x67abd64899d821e5ull, 0x67ac41c675503295ull, 0x67b16a67f3f6c08bull, 0x67b16a67f3f6c08cull, 0x67b3ada3fb0de577ull, 0x67b3ada3fb0de578ull, 0x67b4d7c14bc2c2b2ull, 0x67b5f0e002250a63ull,
0x67b5f0e002250a64ull, 0x67b6a05846e77138ull, 0x67b88cc3e0897aa3ull, 0x67b88cc3e0897aa4ull, 0x67c16a67f3f6c08bull, 0x67c16a67f3f6c08cull, 0x67c3ada3fb0de577ull, 0x67c3ada3fb0de578ull,
0x67c4cf41fe9977edull, 0x67c4cf41fe9977eeull, 0x67c4d7c14bc2c2b2ull, 0x67ccba94176a7927ull, 0x67ccba94176a7928ull, 0x67cdc2b4337a2b50ull, 0x67d16a67f3f6c08bull, 0x67d16a67f3f6c08cull,
0x67d4d7c14bc2c2b2ull, 0x67d7127e05b09cd9ull, 0x67d7127e05b09cdaull, 0x67da0db19eb3735eull, 0x67da0db19eb3735full, 0x67dc41c675503295ull, 0x67de832b128f27adull, 0x67de832b128f27aeull,
0x67e1dc8db2bfec2dull, 0x67e4174a6cadc654ull, 0x67e4174a6cadc655ull, 0x67e43e72fcd3aeb2ull, 0x67e43e72fcd3aeb3ull, 0x67e7127e05b09cd9ull, 0x67e7127e05b09cdaull, 0x67ea0db19eb3735eull,
0x67ea0db19eb3735full, 0x67f1dc8db2bfec2dull, 0x67f4174a6cadc654ull, 0x67f4174a6cadc655ull, 0x67f43e72fcd3aeb2ull, 0x67f43e72fcd3aeb3ull, 0x67f5a878814225c6ull, 0x67f7127e05b09cd9ull,
0x67f7127e05b09cdaull, 0x680000626f884978ull, 0x68043e72fcd3aeb2ull, 0x68043e72fcd3aeb3ull, 0x680594e4392f3197ull, 0x6807127e05b09cd9ull, 0x6807127e05b09cdaull, 0x680f12af3d74c195ull,
0x680f12af3d74c196ull, 0x681000626f884978ull, 0x681594e4392f3197ull, 0x6817127e05b09cd9ull, 0x6817127e05b09cdaull, 0x681d08e537b649e3ull, 0x681d08e537b649e4ull, 0x681f12af3d74c195ull,
0x681f12af3d74c196ull, 0x682000626f884978ull, 0x6820ee7811241ad2ull, 0x6820ee7811241ad3ull, 0x682594e4392f3197ull, 0x6827127e05b09cd9ull, 0x6827127e05b09cdaull, 0x682d08e537b649e3ull,
0x682d08e537b649e4ull, 0x682f12af3d74c195ull, 0x682f12af3d74c196ull, 0x683000626f884978ull, 0x6834007b0b6a5bd6ull, 0x683594e4392f3197ull, 0x6837127e05b09cd9ull, 0x6837127e05b09cdaull,
0x683eb41dc6be8a23ull, 0x683f12af3d74c195ull, 0x683f12af3d74c196ull, 0x68423e731b1eb118ull, 0x6844007b0b6a5bd6ull, 0x684594e4392f3197ull, 0x6847127e05b09cd9ull, 0x6847127e05b09cdaull,
0x684a2480fff6ddddull, 0x684a968de647f255ull, 0x684a968de647f256ull, 0x68523e731b1eb118ull, 0x6854007b0b6a5bd6ull, 0x6857dcb29c9307baull, 0x685a2480fff6ddddull, 0x685c129cc88b33cfull,
0x685f262aad0f9e9bull, 0x685f262aad0f9e9cull, 0x68623e731b1eb118ull, 0x6863096d272030ddull, 0x68690099ce44f2cbull, 0x68690099ce44f2ccull, 0x686a2480fff6ddddull, 0x686c129cc88b33cfull,
0x686f262aad0f9e9bull, 0x686f262aad0f9e9cull, 0x68711a8be96cc606ull, 0x68711a8be96cc607ull, 0x6873096d272030ddull, 0x6876ce0fe1e65d5eull, 0x68784ebf82e41c32ull, 0x68784ebf82e41c33ull,
0x687a2480fff6ddddull, 0x687f262aad0f9e9bull, 0x687f262aad0f9e9cull, 0x68811a8be96cc606ull, 0x68811a8be96cc607ull, 0x6883096d272030ddull, 0x688696f7138b875dull, 0x688e02437b5db38aull,
0x688ef7c67569b4baull, 0x68909fca6c66c56eull, 0x68909fca6c66c56full, 0x68911a8be96cc606ull, 0x68911a8be96cc607ull, 0x6893096d272030ddull, 0x689a6829aea20874ull, 0x689e54e8b0e5f48bull,
0x689e54e8b0e5f48cull, 0x689ef7c67569b4baull, 0x68a2e798cfca9b91ull, 0x68a2e798cfca9b92ull, 0x68a3096d272030ddull, 0x68a739d4d80f478bull, 0x68a739d4d80f478cull, 0x68a85dbc09c1329dull,
0x68aa6829aea20874ull, 0x68ad718635cb1eebull, 0x68ad718635cb1eecull, 0x68b3ce1f42f98657ull, 0x68b3eccfa23b067dull, 0x68b981a33b731daeull, 0x68b981a33b731dafull, 0x68ba6829aea20874ull,
0x68bbaac13f9573abull, 0x68bbaac13f9573acull, 0x68bc8193da5ff4b5ull, 0x68bc8193da5ff4b6ull, 0x68c0811a0d254548ull, 0x68c0811a0d254549ull, 0x68c3ce1f42f98657ull, 0x68c3eccfa23b067dull,
0x68c5e7896eb77298ull, 0x68c5e7896eb77299ull, 0x68cbaac13f9573abull, 0x68cbaac13f9573acull, 0x68cccea871475ebdull, 0x68d0811a0d254548ull, 0x68d0811a0d254549ull, 0x68d1b4596e77f06dull,
0x68d3eccfa23b067dull, 0x68dcc6fc5976feb3ull, 0x68dcc6fc5976feb4ull, 0x68dccea871475ebdull, 0x68dfce99103435c4ull, 0x68e0811a0d254548ull, 0x68e0811a0d254549ull, 0x68e1b4596e77f06dull,
0x68e5e7896eb77298ull, 0x68e5e7896eb77299ull, 0x68e74180efdfa795ull, 0x68ed1b615f6b1f1cull, 0x68f0811a0d254548ull, 0x68f0811a0d254549ull, 0x68f1b4596e77f06dull, 0x68f33451bdee5bf0ull,
0x68f33451bdee5bf1ull, 0x68fd5519e667c437ull, 0x68fd5519e667c438ull, 0x68ff0ecabcdad4d6ull, 0x68ff0ecabcdad4d7ull, 0x6900811a0d254548ull, 0x6900811a0d254549ull, 0x6901dab5e589d09cull,
0x6901dab5e589d09dull, 0x690317a34ed1de37ull, 0x69047aed2f2bcc01ull, 0x6907c7f265000d0full, 0x6907c7f265000d10ull, 0x690d5519e667c437ull, 0x690d5519e667c438ull, 0x6910811a0d254548ull,
0x6910811a0d254549ull, 0x69112de7f9578af2ull, 0x69112de7f9578af3ull, 0x6911dab5e589d09cull, 0x6911dab5e589d09dull, 0x69147aed2f2bcc01ull, 0x6917c7f265000d0full, 0x6917c7f265000d10ull,
0x691cf560911ce895ull, 0x6920d781033e681dull, 0x6920d781033e681eull, 0x69212de7f9578af2ull, 0x69212de7f9578af3ull, 0x6921dab5e589d09cull, 0x6921dab5e589d09dull, 0x69247aed2f2bcc01ull,
0x692b402b15e0df88ull, 0x692b402b15e0df89ull, 0x692cf560911ce895ull, 0x69302ab3170c2273ull, 0x69302ab3170c2274ull, 0x693102b47e4af988ull, 0x69312de7f9578af2ull, 0x69312de7f9578af3ull,
0x6931dab5e589d09cull, 0x6931dab5e589d09dull, 0x69347aed2f2bcc01ull, 0x693cfc476e5148c5ull, 0x694102b47e4af988ull, 0x6941dab5e589d09cull, 0x6941dab5e589d09dull, 0x6948bb9a4ebe8a63ull,
0x6949af42387d07b6ull, 0x6949af42387d07b7ull, 0x694cfc476e5148c5ull, 0x695102b47e4af988ull, 0x69553abb82852ceeull, 0x69553abb82852cefull, 0x695a5c1024af4d60ull, 0x695a5c1024af4d61ull,
0x695defef580fc618ull, 0x695defef580fc619ull, 0x696102b47e4af988ull, 0x69653abb82852ceeull, 0x69653abb82852cefull, 0x696a5c1024af4d60ull, 0x696a5c1024af4d61ull, 0x696defef580fc618ull,
0x696defef580fc619ull, 0x6970fa0e62f26e8cull, 0x6970fa0e62f26e8dull, 0x697102b47e4af988ull, 0x697a5c1024af4d60ull, 0x697a5c1024af4d61ull, 0x697f001a9ff475b1ull, 0x6980fa0e62f26e8cull,
0x6980fa0e62f26e8dull, 0x698102b47e4af988ull, 0x698543619dddb7eaull, 0x69894be4dcca9dc8ull, 0x6990fa0e62f26e8cull, 0x6990fa0e62f26e8dull, 0x699102b47e4af988ull, 0x699543619dddb7eaull,
0x699eb8d23494f804ull, 0x699eb8d23494f805ull, 0x69a0764bccac5c3eull, 0x69a0fa0e62f26e8cull, 0x69a0fa0e62f26e8dull, 0x69a102b47e4af988ull, 0x69a543619dddb7eaull, 0x69adb6b164d9be8dull,
0x69b0764bccac5c3eull, 0x69b0fa0e62f26e8cull, 0x69b0fa0e62f26e8dull, 0x69b102b47e4af988ull, 0x69b543619dddb7eaull, 0x69ba943a055525e4ull, 0x69ba943a055525e5ull, 0x69bf9ede13fd453aull,
0x69c102b47e4af988ull, 0x69c543619dddb7eaull, 0x69c5c7243423ca38ull, 0x69c5c7243423ca39ull, 0x69c82daf1cbc780eull, 0x69c82daf1cbc780full, 0x69ca943a055525e4ull, 0x69ca943a055525e5ull,
0x69ceb1ccf8803cf4ull, 0x69d102b47e4af988ull, 0x69d543619dddb7eaull, 0x69d82daf1cbc780eull, 0x69d82daf1cbc780full, 0x69da943a055525e4ull, 0x69da943a055525e5ull, 0x69de3b446ac1b8d1ull,
0x69deb1ccf8803cf4ull, 0x69e102b47e4af988ull, 0x69e543619dddb7eaull, 0x69e960f49108cef9ull, 0x69e960f49108cefaull, 0x69ea943a055525e4ull, 0x69ea943a055525e5ull, 0x69ef102b6bc72658ull,
0x69ef4b6fb2a66869ull, 0x69ef4b6fb2a6686aull, 0x69f0cdcc5c2cc0daull, 0x69f543619dddb7eaull, 0x69f9fa974b2efa6full, 0x69fa943a055525e4ull, 0x69fa943a055525e5ull, 0x69fc788794b83399ull,
0x69fc788794b8339aull, 0x69fcefd4dbfdc727ull, 0x6a003429a2069564ull, 0x6a003429a2069565ull, 0x6a09199b3cedbf88ull, 0x6a09199b3cedbf89ull, 0x6a09fa974b2efa6full, 0x6a0a943a055525e4ull,
0x6a0a943a055525e5ull, 0x6a0c788794b83399ull, 0x6a0c788794b8339aull, 0x6a0e6a73a4652d83ull, 0x6a103429a2069564ull, 0x6a103429a2069565ull, 0x6a13c8c2d576518eull, 0x6a19199b3cedbf88ull,
0x6a19199b3cedbf89ull, 0x6a1a943a055525e4ull, 0x6a1a943a055525e5ull, 0x6a1e6a73a4652d83ull, 0x6a1ff0843dc21bd7ull, 0x6a203429a2069564ull, 0x6a203429a2069565ull, 0x6a220111d07917c5ull,
0x6a23c8c2d576518eull, 0x6a2a943a055525e4ull, 0x6a2a943a055525e5ull, 0x6a2e239c0f4f9976ull, 0x6a2e239c0f4f9977ull, 0x6a2f92c906c177daull, 0x6a2f92c906c177dbull, 0x6a301635e073d1a8ull,
0x6a30afd89a99fd1dull, 0x6a30afd89a99fd1eull, 0x6a320111d07917c5ull, 0x6a33c8c2d576518eull, 0x6a3f866abab2ba48ull, 0x6a3f92c906c177daull, 0x6a3f92c906c177dbull, 0x6a40afd89a99fd1dull,
0x6a40afd89a99fd1eull, 0x6a41497b54c02893ull, 0x6a43c8c2d576518eull, 0x6a48baf38ad3e5f1ull, 0x6a48baf38ad3e5f2ull, 0x6a4e99c77d721a4eull, 0x6a4e99c77d721a4full, 0x6a4f92c906c177daull,
0x6a4f92c906c177dbull, 0x6a51497b54c02893ull, 0x6a54b56612b6f187ull, 0x6a54b56612b6f188ull, 0x6a5749d69a3ddb2aull, 0x6a58baf38ad3e5f1ull, 0x6a58baf38ad3e5f2ull, 0x6a5f92c906c177daull,
0x6a5f92c906c177dbull, 0x6a61497b54c02893ull, 0x6a66b82ccec56bbcull, 0x6a66b82ccec56bbdull, 0x6a6749d69a3ddb2aull, 0x6a68baf38ad3e5f1ull, 0x6a68baf38ad3e5f2ull, 0x6a6cc08102f0da5bull,
0x6a6cc08102f0da5cull, 0x6a6f92c906c177daull, 0x6a6f92c906c177dbull, 0x6a717760f3ae645full, 0x6a717760f3ae6460ull, 0x6a72b29f56a87752ull, 0x6a72b29f56a87753ull, 0x6a76b82ccec56bbcull,
0x6a76b82ccec56bbdull, 0x6a77b9902ccca8d7ull, 0x6a7cc08102f0da5bull, 0x6a7cc08102f0da5cull, 0x6a7f92c906c177daull, 0x6a7f92c906c177dbull, 0x6a82b29f56a87752ull, 0x6a82b29f56a87753ull,
0x6a87b9902ccca8d7ull, 0x6a89c05360320110ull, 0x6a8d1c4c40cd51f4ull, 0x6a8d1c4c40cd51f5ull, 0x6a8f92c906c177daull, 0x6a8f92c906c177dbull, 0x6a92b29f56a87752ull, 0x6a92b29f56a87753ull,
0x6a97b9902ccca8d7ull, 0x6a9922b42eb4f796ull, 0x6a9922b42eb4f797ull, 0x6a99c05360320110ull, 0x6a9d1c4c40cd51f4ull, 0x6a9d1c4c40cd51f5ull, 0x6a9e8f676d0ecbbeull, 0x6aa2b29f56a87752ull,
0x6aa2b29f56a87753ull, 0x6aa3503e882580ccull, 0x6aa5eaa9c2aeb774ull, 0x6aa5eaa9c2aeb775ull, 0x6aa7b9902ccca8d7ull, 0x6aab247bccedba4aull, 0x6aab247bccedba4bull, 0x6aad1c4c40cd51f4ull,
0x6aad1c4c40cd51f5ull, 0x6ab018341c1f40aaull, 0x6ab2b29f56a87752ull, 0x6ab2b29f56a87753ull, 0x6ab380a1f1aa075bull, 0x6ab44ea48cab9763ull, 0x6ab44ea48cab9764ull, 0x6abd1c4c40cd51f4ull,
0x6abd1c4c40cd51f5ull, 0x6abf5d6a08105bc6ull, 0x6abf5d6a08105bc7ull, 0x6ac018341c1f40aaull, 0x6ac380a1f1aa075bull, 0x6ac44ea48cab9763ull, 0x6ac44ea48cab9764ull, 0x6ac6ac3768c0d1b0ull,
0x6ac6ac3768c0d1b1ull, 0x6acd1c4c40cd51f4ull, 0x6acd1c4c40cd51f5ull, 0x6ad018341c1f40aaull, 0x6ad380a1f1aa075bull, 0x6ade0ef585809b11ull, 0x6adeb85176d07205ull, 0x6adeb85176d07206ull,
0x6adf865411d2020eull, 0x6ae018341c1f40aaull, 0x6ae380a1f1aa075bull, 0x6ae8c7cbbb955136ull, 0x6aeeb85176d07205ull, 0x6aeeb85176d07206ull, 0x6aefdb5e250841b1ull, 0x6af018341c1f40aaull,
0x6af41e41232710d4ull, 0x6af41e41232710d5ull, 0x6af7f9c92093c12dull, 0x6af7f9c92093c12eull, 0x6af8c7cbbb955136ull, 0x6afab2446fc8a1dbull, 0x6afd715654039197ull, 0x6afd715654039198ull,
0x6b041e41232710d4ull, 0x6b041e41232710d5ull, 0x6b04c1beb48d810bull, 0x6b04c1beb48d810cull, 0x6b07f9c92093c12dull, 0x6b07f9c92093c12eull, 0x6b08c7cbbb955136ull, 0x6b0ab2446fc8a1dbull,
0x6b10bbb1ad85b0e1ull, 0x6b1295d8ccaffce8ull, 0x6b1295d8ccaffce9ull, 0x6b141e41232710d4ull, 0x6b141e41232710d5ull, 0x6b14c1beb48d810bull, 0x6b14c1beb48d810cull, 0x6b18c7cbbb955136ull,
0x6b1e2bbc0f79157bull, 0x6b20bbb1ad85b0e1ull, 0x6b2295d8ccaffce8ull, 0x6b2295d8ccaffce9ull, 0x6b24c1beb48d810bull, 0x6b24c1beb48d810cull, 0x6b2780d098c870c8ull, 0x6b2c7c19f9e9e945ull,
0x6b2e14d3e56a01ceull, 0x6b2e14d3e56a01cfull, 0x6b30bbb1ad85b0e1ull, 0x6b3295d8ccaffce8ull, 0x6b3295d8ccaffce9ull, 0x6b3780d098c870c8ull, 0x6b39ddbeaf841347ull, 0x6b39ddbeaf841348ull,
0x6b3e14d3e56a01ceull, 0x6b3e14d3e56a01cfull, 0x6b3ef9beaa7aa583ull, 0x6b3ef9beaa7aa584ull, 0x6b41a09c72965496ull, 0x6b4295d8ccaffce8ull, 0x6b4295d8ccaffce9ull, 0x6b43abcbc09ebefaull,
0x6b4c6bbeacff5c65ull, 0x6b4c6bbeacff5c66ull, 0x6b4e14d3e56a01ceull, 0x6b4e14d3e56a01cfull, 0x6b4ef9beaa7aa583ull, 0x6b4ef9beaa7aa584ull, 0x6b51a09c72965496ull, 0x6b5295d8ccaffce8ull,
0x6b5295d8ccaffce9ull, 0x6b53abcbc09ebefaull, 0x6b5db2beabbd00f4ull, 0x6b5db2beabbd00f5ull, 0x6b5e14d3e56a01ceull, 0x6b5e14d3e56a01cfull, 0x6b5ef9beaa7aa583ull, 0x6b5ef9beaa7aa584ull,
0x6b60288f6909cd89ull, 0x6b60288f6909cd8aull, 0x6b63abcbc09ebefaull, 0x6b68349fbf37e59cull, 0x6b68349fbf37e59dull, 0x6b6d6104befa8cfaull, 0x6b6ef9beaa7aa583ull, 0x6b6ef9beaa7aa584ull,
0x6b6f8ce0eef688dbull, 0x6b71f258cd512aa1ull, 0x6b7608c38f3be9bbull, 0x6b7608c38f3be9bcull, 0x6b7896beb0c66eb8ull, 0x6b7896beb0c66eb9ull, 0x6b7a0ecbba52f5c5ull, 0x6b7ef9beaa7aa583ull,
0x6b7ef9beaa7aa584ull, 0x6b7f8ce0eef688dbull, 0x6b81f258cd512aa1ull, 0x6b871eb1a739e7acull, 0x6b8896beb0c66eb8ull, 0x6b8896beb0c66eb9ull, 0x6b8a0ecbba52f5c5ull, 0x6b8e76f2d6f88aeaull,
0x6b8e76f2d6f88aebull, 0x6b8ef9beaa7aa583ull, 0x6b8ef9beaa7aa584ull, 0x6b9048f367e1e117ull, 0x6b9048f367e1e118ull, 0x6b971eb1a739e7acull, 0x6b9a0ecbba52f5c5ull, 0x6b9e76f2d6f88aeaull,
0x6b9e76f2d6f88aebull, 0x6b9f4b9f76c33a86ull, 0x6b9fd67824216fb0ull, 0x6ba157053d6b6dc1ull, 0x6ba2e79a035b9714ull, 0x6ba2e79a035b9715ull, 0x6ba3fd881b599505ull, 0x6bacf2a1ef3a32baull,
0x6bacf2a1ef3a32bbull, 0x6bae76f2d6f88aeaull, 0x6bae76f2d6f88aebull, 0x6bafd67824216fb0ull, 0x6bb157053d6b6dc1ull, 0x6bb2e79a035b9714ull, 0x6bb2e79a035b9715ull, 0x6bb7e0da1b1913c4ull,
0x6bbce65e11086197ull, 0x6bbcf2a1ef3a32baull, 0x6bbcf2a1ef3a32bbull, 0x6bbe76f2d6f88aeaull, 0x6bbe76f2d6f88aebull, 0x6bc157053d6b6dc1ull, 0x6bc2e79a035b9714ull, 0x6bc2e79a035b9715ull,
0x6bcce65e11086197ull, 0x6bcf123a41045d78ull, 0x6bcf20938e7414bbull, 0x6bcf20938e7414bcull, 0x6bd10234e1ada8d8ull, 0x6bd10234e1ada8d9ull, 0x6bd2e79a035b9714ull, 0x6bd2e79a035b9715ull,
0x6bd3e60b1694e5ceull, 0x6bdce65e11086197ull, 0x6bdf123a41045d78ull, 0x6bdf20938e7414bbull, 0x6bdf20938e7414bcull, 0x6be2e79a035b9714ull, 0x6be2e79a035b9715ull, 0x6be3e60b1694e5ceull,
0x6be6c9e14b7c22c3ull, 0x6be6c9e14b7c22c4ull, 0x6beaac28939cae72ull, 0x6beaac28939cae73ull, 0x6beaf53a6cf81bbfull, 0x6beaf53a6cf81bc0ull, 0x6bef20938e7414bbull, 0x6bef20938e7414bcull,
0x6bf2e79a035b9714ull, 0x6bf2e79a035b9715ull, 0x6bf3e60b1694e5ceull, 0x6bf6c9e14b7c22c3ull, 0x6bf6c9e14b7c22c4ull, 0x6bfaf53a6cf81bbfull, 0x6bfaf53a6cf81bc0ull, 0x6bffeebd329d5533ull,
0x6c036b6468a2ba6bull, 0x6c04d8bda76bdcecull, 0x6c06c9e14b7c22c3ull, 0x6c06c9e14b7c22c4ull, 0x6c08df8ddc3a1f41ull, 0x6c08df8ddc3a1f42ull, 0x6c0af53a6cf81bbfull, 0x6c0af53a6cf81bc0ull,
0x6c0e0aa5767616cbull, 0x6c14d8bda76bdcecull, 0x6c16c9e14b7c22c3ull, 0x6c16c9e14b7c22c4ull, 0x6c18bb04ef8c689bull, 0x6c19ea6424991d80ull, 0x6c19ea6424991d81ull, 0x6c1af53a6cf81bbfull,
0x6c1af53a6cf81bc0ull, 0x6c1e0aa5767616cbull, 0x6c26c9e14b7c22c3ull, 0x6c26c9e14b7c22c4ull, 0x6c28bb04ef8c689bull, 0x6c29ea6424991d80ull, 0x6c29ea6424991d81ull, 0x6c2a6fcf48c89ca0ull,
0x6c2b62d533013fb3ull, 0x6c2c0010b55719feull, 0x6c2c0010b55719ffull, 0x6c38bb04ef8c689bull, 0x6c3964f900699e61ull, 0x6c3a0eed1146d427ull, 0x6c3c0010b55719feull, 0x6c3c0010b55719ffull,
0x6c3e0aa5767616cbull, 0x6c3fc8e6e068eeb8ull, 0x6c3fc8e6e068eeb9ull, 0x6c47671ccdd1fd0full, 0x6c4964f900699e61ull, 0x6c4a0eed1146d427ull, 0x6c4c0010b55719feull, 0x6c4c0010b55719ffull,
0x6c4e0aa5767616cbull, 0x6c5459469ac5f497ull, 0x6c5459469ac5f498ull, 0x6c57671ccdd1fd0full, 0x6c5964f900699e61ull, 0x6c59b9f308d83944ull, 0x6c5ab8e1222409edull, 0x6c60c394252de353ull,
0x6c68fa9fb83131ffull, 0x6c68fa9fb8313200ull, 0x6c690ffef7fb037eull, 0x6c6964f900699e61ull, 0x6c698f7604a0ebd2ull, 0x6c698f7604a0ebd3ull, 0x6c6ab8e1222409edull, 0x6c70ae34e56411d4ull,
0x6c70ae34e56411d5ull, 0x6c790ffef7fb037eull, 0x6c7964f900699e61ull, 0x6c79e4700d0f86b5ull, 0x6c79e4700d0f86b6ull, 0x6c7fd375c29facb2ull, 0x6c82cbff39fc429eull, 0x6c82cbff39fc429full,
0x6c890ffef7fb037eull, 0x6c8964f900699e61ull, 0x6c89e4700d0f86b5ull, 0x6c89e4700d0f86b6ull, 0x6c8c9c376184a589ull, 0x6c8c9c376184a58aull, 0x6c8d363461619393ull, 0x6c8d363461619394ull,
0x6c92cbff39fc429eull, 0x6c92cbff39fc429full, 0x6c94a759f0dcba5dull, 0x6c96f234a362d2b4ull, 0x6c9964f900699e61ull, 0x6c9c9c376184a589ull, 0x6c9c9c376184a58aull, 0x6ca1701b8fc1b334ull,
0x6ca1701b8fc1b335ull, 0x6ca2cbff39fc429eull, 0x6ca2cbff39fc429full, 0x6cac9c376184a589ull, 0x6cac9c376184a58aull, 0x6cad363461619393ull, 0x6cad363461619394ull, 0x6cae45198badabf8ull,
0x6cae45198badabf9ull, 0x6caf53feb5f9c45dull, 0x6caf53feb5f9c45eull, 0x6cb2cbff39fc429eull, 0x6cb2cbff39fc429full, 0x6cb7062978a32c5full, 0x6cbc9c376184a589ull, 0x6cbc9c376184a58aull,
0x6cbe45198badabf8ull, 0x6cbe45198badabf9ull, 0x6cbecc8c20d3b82bull, 0x6cbf53feb5f9c45dull, 0x6cbf53feb5f9c45eull, 0x6cc2cbff39fc429eull, 0x6cc2cbff39fc429full, 0x6cc7062978a32c5full,
0x6ccbee458c675dd4ull, 0x6ccbee458c675dd5ull, 0x6ccc9c376184a589ull, 0x6ccc9c376184a58aull, 0x6ccecc8c20d3b82bull, 0x6ccf53feb5f9c45dull, 0x6ccf53feb5f9c45eull, 0x6cd11922a5330f5aull,
0x6cd284aa6433aae7ull, 0x6cd284aa6433aae8ull, 0x6cd75d226331d039ull, 0x6cd75d226331d03aull, 0x6cde45198badabf8ull, 0x6cde45198badabf9ull, 0x6cdecc8c20d3b82bull, 0x6cdf53feb5f9c45dull,
0x6cdf53feb5f9c45eull, 0x6ce0752b3ab5f47aull, 0x6ce0752b3ab5f47bull, 0x6ce11922a5330f5aull, 0x6ce75d226331d039ull, 0x6ce75d226331d03aull, 0x6cee45198badabf8ull, 0x6cee45198badabf9ull,
0x6ceecc8c20d3b82bull, 0x6cefe9b3b5cb57e6ull, 0x6cefe9b3b5cb57e7ull, 0x6cf11922a5330f5aull, 0x6cf361b439cdd627ull, 0x6cf361b439cdd628ull, 0x6cf75d226331d039ull, 0x6cf75d226331d03aull,
0x6cfe45198badabf8ull, 0x6cfe45198badabf9ull, 0x6cffe9b3b5cb57e6ull, 0x6cffe9b3b5cb57e7ull, 0x6d055f6b4e7fd330ull, 0x6d055f6b4e7fd331ull, 0x6d075d226331d039ull, 0x6d075d226331d03aull,
0x6d0a025f4cf00d36ull, 0x6d0ad11df76fbe19ull, 0x6d0e45198badabf8ull, 0x6d0e45198badabf9ull, 0x6d155f6b4e7fd330ull, 0x6d155f6b4e7fd331ull, 0x6d165e46d8d8d1b5ull, 0x6d175d226331d039ull,
0x6d175d226331d03aull, 0x6d1a025f4cf00d36ull, 0x6d1ad11df76fbe19ull, 0x6d1e45198badabf8ull, 0x6d1e45198badabf9ull, 0x6d2262d8af74d7a3ull, 0x6d2381c779b409e8ull, 0x6d2381c779b409e9ull,
0x6d255f6b4e7fd330ull, 0x6d255f6b4e7fd331ull, 0x6d265e46d8d8d1b5ull, 0x6d275d226331d039ull, 0x6d275d226331d03aull, 0x6d2e45198badabf8ull, 0x6d2e45198badabf9ull, 0x6d3047475d761e05ull,
0x6d3047475d761e06ull, 0x6d3262d8af74d7a3ull, 0x6d375d226331d039ull, 0x6d375d226331d03aull, 0x6d38e37082b0daf0ull, 0x6d38e37082b0daf1ull, 0x6d3b766ac9e286e0ull, 0x6d4047475d761e05ull,
0x6d4047475d761e06ull, 0x6d4262d8af74d7a3ull, 0x6d44a0b643f33c2eull, 0x6d475d226331d039ull, 0x6d475d226331d03aull, 0x6d47c481b871a8abull, 0x6d48e37082b0daf0ull, 0x6d48e37082b0daf1ull,
0x6d5047475d761e05ull, 0x6d5047475d761e06ull, 0x6d5262d8af74d7a3ull, 0x6d53d234e053f71full, 0x6d53d234e053f720ull, 0x6d56329bfe32726cull, 0x6d56329bfe32726dull, 0x6d57c481b871a8abull,
0x6d5a3bdac4f00f32ull, 0x6d5a3bdac4f00f33ull, 0x6d6047475d761e05ull, 0x6d6047475d761e06ull, 0x6d610a6e6d35a361ull, 0x6d620cbe1ee50a92ull, 0x6d620cbe1ee50a93ull, 0x6d6262d8af74d7a3ull,
0x6d6ae80fe60fa953ull, 0x6d6ae80fe60fa954ull, 0x6d6cecaf496e77b6ull, 0x6d6cecaf496e77b7ull, 0x6d710a6e6d35a361ull, 0x6d720cbe1ee50a92ull, 0x6d720cbe1ee50a93ull, 0x6d729c542774d99full,
0x6d729c542774d9a0ull, 0x6d76329bfe32726cull, 0x6d76329bfe32726dull, 0x6d7b3e2a769f7664ull, 0x6d7cecaf496e77b6ull, 0x6d7cecaf496e77b7ull, 0x6d810a6e6d35a361ull, 0x6d820cbe1ee50a92ull,
0x6d820cbe1ee50a93ull, 0x6d84677812d3a606ull, 0x6d86329bfe32726cull, 0x6d86329bfe32726dull, 0x6d8b3e2a769f7664ull, 0x6d8fabd35a34c5c4ull, 0x6d8fabd35a34c5c5ull, 0x6d920cbe1ee50a92ull,
0x6d920cbe1ee50a93ull, 0x6d94677812d3a606ull, 0x6d96244c71ea8ce2ull, 0x6d96244c71ea8ce3ull, 0x6d96329bfe32726cull, 0x6d96329bfe32726dull, 0x6d98dc48bc8ce82bull, 0x6d98dc48bc8ce82cull,
0x6d9b3e2a769f7664ull, 0x6da4677812d3a606ull, 0x6da46e9fd8f798cbull, 0x6dab4c7a02e75beeull, 0x6dacf3d70f926a7bull, 0x6dacf3d70f926a7cull, 0x6dad5f2babada406ull, 0x6dad5f2babada407ull,
0x6db106da8a23a9feull, 0x6db106da8a23a9ffull, 0x6db4677812d3a606ull, 0x6dbcf3d70f926a7bull, 0x6dbcf3d70f926a7cull, 0x6dbd5f2babada406ull, 0x6dbd5f2babada407ull, 0x6dc106da8a23a9feull,
0x6dc106da8a23a9ffull, 0x6dc4677812d3a606ull, 0x6dcb7040e19b19c7ull, 0x6dccf3d70f926a7bull, 0x6dccf3d70f926a7cull, 0x6dcdcce36a82e7d6ull, 0x6dd106da8a23a9feull, 0x6dd106da8a23a9ffull,
0x6dd4677812d3a606ull, 0x6dd6fd58ccdb0a3dull, 0x6dd91dc1a1bd4050ull, 0x6dd91dc1a1bd4051ull, 0x6ddc8586f0912f1dull, 0x6ddd05ba7eec4968ull, 0x6de2d1fe75827665ull, 0x6de4677812d3a606ull,
0x6de6fd58ccdb0a3dull, 0x6de9815617888f87ull, 0x6de9815617888f88ull, 0x6dec8586f0912f1dull, 0x6dedd0774d94e138ull, 0x6dedd0774d94e139ull, 0x6df1752aa924e55dull, 0x6df2d1fe75827665ull,
0x6df68f08add9cedeull, 0x6df68f08add9cedfull, 0x6df9815617888f87ull, 0x6df9815617888f88ull, 0x6df9c16fdeb61cadull, 0x6dfc8586f0912f1dull, 0x6e01752aa924e55dull, 0x6e09815617888f87ull,
0x6e09815617888f88ull, 0x6e0b237b67a3a5e5ull, 0x6e0c8586f0912f1dull, 0x6e0f499e026c418dull, 0x6e11752aa924e55dull, 0x6e16c7ae7ecd6d77ull, 0x6e16c7ae7ecd6d78ull, 0x6e185f6455c89375ull,
0x6e19815617888f87ull, 0x6e19815617888f88ull, 0x6e1f499e026c418dull, 0x6e21752aa924e55dull, 0x6e26c7ae7ecd6d77ull, 0x6e26c7ae7ecd6d78ull, 0x6e29d88b0a9ff3c9ull, 0x6e29d88b0a9ff3caull,
0x6e2bd4812c1a6a81ull, 0x6e2f499e026c418dull, 0x6e31752aa924e55dull, 0x6e387bb73e4262c1ull, 0x6e387bb73e4262c2ull, 0x6e3a0425842ba5eaull, 0x6e3a0425842ba5ebull, 0x6e3bd4812c1a6a81ull,
0x6e3d8f0f97435607ull, 0x6e415f5d6c5f0c4cull, 0x6e415f5d6c5f0c4dull, 0x6e41752aa924e55dull, 0x6e4329336899daa7ull, 0x6e487bb73e4262c1ull, 0x6e487bb73e4262c2ull, 0x6e4955bb9dfcdd66ull,
0x6e4955bb9dfcdd67ull, 0x6e4a19f2c0f17efbull, 0x6e51752aa924e55dull, 0x6e5329336899daa7ull, 0x6e587bb73e4262c1ull, 0x6e587bb73e4262c2ull, 0x6e59c2bdcdda1ab9ull, 0x6e5a19f2c0f17efbull,
0x6e5e6c56ccd7cbcaull, 0x6e6108287947a80aull, 0x6e6108287947a80bull, 0x6e61752aa924e55dull, 0x6e6a9cc22d94955eull, 0x6e6c4324c6e4a562ull, 0x6e6c4324c6e4a563ull, 0x6e6e56899011f2b9ull,
0x6e6e56899011f2baull, 0x6e6e6c56ccd7cbcaull, 0x6e73888f725232b4ull, 0x6e76d14119a1d8d7ull, 0x6e76d14119a1d8d8ull, 0x6e7a9cc22d94955eull, 0x6e7c4324c6e4a562ull, 0x6e7c4324c6e4a563ull,
0x6e7e56899011f2b9ull, 0x6e7e56899011f2baull, 0x6e8329336899daa7ull, 0x6e83888f725232b4ull, 0x6e83f591a22f7006ull, 0x6e83f591a22f7007ull, 0x6e8c357ea0bfc01dull, 0x6e8c4324c6e4a562ull,
0x6e8c4324c6e4a563ull, 0x6e8e56899011f2b9ull, 0x6e8e56899011f2baull, 0x6e927edd0dbb8c08ull, 0x6e927edd0dbb8c09ull, 0x6e9329336899daa7ull, 0x6e93888f725232b4ull, 0x6e97af5904accd62ull,
0x6e9c4324c6e4a562ull, 0x6e9c4324c6e4a563ull, 0x6e9e56899011f2b9ull, 0x6e9e56899011f2baull, 0x6ea27edd0dbb8c08ull, 0x6ea27edd0dbb8c09ull, 0x6ea56c4636a35404ull, 0x6ea56c4636a35405ull,
0x6ea7af5904accd62ull, 0x6ea86ab34ee6bf61ull, 0x6eac4324c6e4a562ull, 0x6eac4324c6e4a563ull, 0x6eaeb436b52eebb9ull, 0x6eb1c382c3819a09ull, 0x6eb1c382c3819a0aull, 0x6eb27edd0dbb8c08ull,
0x6eb27edd0dbb8c09ull, 0x6eb7af5904accd62ull, 0x6eb837a780d3d53full, 0x6eb837a780d3d540ull, 0x6ebb581c77ce875dull, 0x6ebeb436b52eebb9ull, 0x6ec1c382c3819a09ull, 0x6ec1c382c3819a0aull,
0x6ec24bd13fa8a1e7ull, 0x6ec27edd0dbb8c08ull, 0x6ec27edd0dbb8c09ull, 0x6eceb436b52eebb9ull, 0x6ecf6f90ff68ddb8ull, 0x6ed0ec7c342980f2ull, 0x6ed0ec7c342980f3ull, 0x6ed1c382c3819a09ull,
0x6ed1c382c3819a0aull, 0x6ed4fd95222ab7a4ull, 0x6ed4fd95222ab7a5ull, 0x6ed5a39ec0dfa234ull, 0x6ed5a39ec0dfa235ull, 0x6edb8f75020ad58dull, 0x6edeb436b52eebb9ull, 0x6ee1c382c3819a09ull,
0x6ee1c382c3819a0aull, 0x6ee5a39ec0dfa234ull, 0x6ee5a39ec0dfa235ull, 0x6eeb8f75020ad58dull, 0x6eed9b2f45d800baull, 0x6eed9b2f45d800bbull, 0x6eee237dc1ff0898ull, 0x6eef3838752c8f88ull,
0x6ef1c382c3819a09ull, 0x6ef1c382c3819a0aull, 0x6ef69a9e517f4672ull, 0x6efb73c8bcecae75ull, 0x6efb8f75020ad58dull, 0x6efd9b2f45d800baull, 0x6efd9b2f45d800bbull, 0x6eff7d6721f7f144ull,
0x6f01c382c3819a09ull, 0x6f01c382c3819a0aull, 0x6f02d62e993f655full, 0x6f0d866e12016368ull, 0x6f0d866e12016369ull, 0x6f0d9b2f45d800baull, 0x6f0d9b2f45d800bbull, 0x6f0f7d6721f7f144ull,
0x6f15aa89d2272bfaull, 0x6f15aa89d2272bfbull, 0x6f179e0d5979f4f3ull, 0x6f1d866e12016368ull, 0x6f1d866e12016369ull, 0x6f1d9b2f45d800baull, 0x6f1d9b2f45d800bbull, 0x6f1f7d6721f7f144ull,
0x6f22d62e993f655full, 0x6f25aa89d2272bfaull, 0x6f25aa89d2272bfbull, 0x6f279e0d5979f4f3ull, 0x6f27f487b1782f1eull, 0x6f2d9b2f45d800baull, 0x6f2d9b2f45d800bbull, 0x6f2f7d6721f7f144ull,
0x6f33ae60753af6caull, 0x6f33ae60753af6cbull, 0x6f35655b255bca3eull, 0x6f35655b255bca3full, 0x6f35aa89d2272bfaull, 0x6f35aa89d2272bfbull, 0x6f35bbd57d5a0469ull, 0x6f35bbd57d5a046aull,
0x6f379e0d5979f4f3ull, 0x6f37f487b1782f1eull, 0x6f40bcc83f72133aull, 0x6f41cc28991b0641ull, 0x6f41f765c51a2356ull, 0x6f41f765c51a2357ull, 0x6f43ae60753af6caull, 0x6f43ae60753af6cbull,
0x6f4b627d11b9d606ull, 0x6f50c56e150b7f71ull, 0x6f50c56e150b7f72ull, 0x6f53ae60753af6caull, 0x6f53ae60753af6cbull, 0x6f55655b255bca3eull, 0x6f55655b255bca3full, 0x6f59ab8261990292ull,
0x6f5df1a99dd63ae5ull, 0x6f5df1a99dd63ae6ull, 0x6f63ae60753af6caull, 0x6f63ae60753af6cbull, 0x6f65655b255bca3eull, 0x6f65655b255bca3full, 0x6f69ab8261990292ull, 0x6f6a19410da1376full,
0x6f70fc4d6b0f99e0ull, 0x6f73ae60753af6caull, 0x6f73ae60753af6cbull, 0x6f75655b255bca3eull, 0x6f75655b255bca3full, 0x6f79ab8261990292ull, 0x6f7a19410da1376full, 0x6f8340a1c932c1edull,
0x6f8340a1c932c1eeull, 0x6f83ae60753af6caull, 0x6f83ae60753af6cbull, 0x6f89ab8261990292ull, 0x6f8a19410da1376full, 0x6f8bd03bbdc20ae3ull, 0x6f8df84095ffeb82ull, 0x6f8df84095ffeb83ull,
0x6f905d807e05c941ull, 0x6f9340a1c932c1edull, 0x6f9340a1c932c1eeull, 0x6f93ae60753af6caull, 0x6f93ae60753af6cbull, 0x6f978d5ffd99aadeull, 0x6f9abddf0fad86baull, 0x6f9abddf0fad86bbull,
0x6fa340a1c932c1edull, 0x6fa340a1c932c1eeull, 0x6fa3ae60753af6caull, 0x6fa3ae60753af6cbull, 0x6fa6ff406c702454ull, 0x6fa89c712f9956b8ull, 0x6fabdd20b43ddb6bull, 0x6fad6a2104d664f8ull,
0x6fad6a2104d664f9ull, 0x6fb340a1c932c1edull, 0x6fb340a1c932c1eeull, 0x6fb3ae60753af6caull, 0x6fb3ae60753af6cbull, 0x6fb6ff406c702454ull, 0x6fbbdd20b43ddb6bull, 0x6fbd6a2104d664f8ull,
0x6fbd6a2104d664f9ull, 0x6fbf8eda60ff6d49ull, 0x6fbf8eda60ff6d4aull, 0x6fc13f7051541b3full, 0x6fc340a1c932c1edull, 0x6fc340a1c932c1eeull, 0x6fcd6a2104d664f8ull, 0x6fcd6a2104d664f9ull,
0x6fcd70b7fd001595ull, 0x6fcd70b7fd001596ull, 0x6fcfd29ead7f5840ull, 0x6fd13f7051541b3full, 0x6fd340a1c932c1edull, 0x6fd340a1c932c1eeull, 0x6fdcbf10878c2d69ull, 0x6fdd6a2104d664f8ull,
0x6fdd6a2104d664f9ull, 0x6fdec38d7b7fac66ull, 0x6fe13f7051541b3full, 0x6fe340a1c932c1edull, 0x6fe340a1c932c1eeull, 0x6fe4ca68dc2c5759ull, 0x6fec3787ee8c577cull, 0x6fecbf10878c2d69ull,
0x6fee848cccf84b76ull, 0x6ff326fc5926e936ull, 0x6ff326fc5926e937ull, 0x6ff340a1c932c1edull, 0x6ff340a1c932c1eeull, 0x6ff8c4bcb1dc4261ull, 0x6ffaf1852812ad07ull, 0x6ffcbf10878c2d69ull,
0x700333cf112cd592ull, 0x700340a1c932c1edull, 0x700340a1c932c1eeull, 0x7008c4bcb1dc4261ull, 0x700a4e83c4d5d7ccull, 0x700a4e83c4d5d7cdull, 0x700ac1e69cb437e5ull, 0x70105cb22e9e0c38ull,
0x70105cb22e9e0c39ull, 0x701340a1c932c1edull, 0x701340a1c932c1eeull, 0x7016c792c7044cddull, 0x7019c351a7483d23ull, 0x701ac1e69cb437e5ull, 0x701cda8951c92cb6ull, 0x701cda8951c92cb7ull,
0x702340a1c932c1edull, 0x702340a1c932c1eeull, 0x702656034957135bull, 0x7026c792c7044cddull, 0x702bc07b922032a7ull, 0x702e787625e437f6ull, 0x702e787625e437f7ull, 0x703340a1c932c1edull,
0x703340a1c932c1eeull, 0x703800c2d5780af6ull, 0x703800c2d5780af7ull, 0x703944072c923fc2ull, 0x703bc07b922032a7ull, 0x703f476c8ff1bd96ull, 0x703f476c8ff1bd97ull, 0x7042d926942bff1dull,
0x7042d926942bff1eull, 0x704340a1c932c1edull, 0x704340a1c932c1eeull, 0x704944072c923fc2ull, 0x704a82415f593934ull, 0x704a82415f593935ull, 0x704c0b92e7bba716ull, 0x704c0b92e7bba717ull,
0x7052f305616dafd1ull, 0x7052f305616dafd2ull, 0x705340a1c932c1edull, 0x705340a1c932c1eeull, 0x705944072c923fc2ull, 0x705a82415f593934ull, 0x705a82415f593935ull, 0x705e10faf0dd7526ull,
0x705e10faf0dd7527ull, 0x705f7b2a2a751efeull, 0x705f7b2a2a751effull, 0x70613b39c010f3ddull, 0x70613b39c010f3deull, 0x7062f305616dafd1ull, 0x7062f305616dafd2ull, 0x706340a1c932c1edull,
0x706340a1c932c1eeull, 0x706db65273dc9eb2ull, 0x706f13aef56e5c2eull, 0x706f13aef56e5c2full, 0x706f7b2a2a751efeull, 0x706f7b2a2a751effull, 0x7072f305616dafd1ull, 0x7072f305616dafd2ull,
0x707648bdd6e57705ull, 0x707648bdd6e57706ull, 0x7078a8ce5d081b8aull, 0x70792a285f508f0eull, 0x707f88199115f758ull, 0x707f88199115f759ull, 0x707f9508f7b6cfb2ull, 0x707f9508f7b6cfb3ull,
0x7082f305616dafd1ull, 0x7082f305616dafd2ull, 0x7083c1fbcb7b3571ull, 0x7083c1fbcb7b3572ull, 0x7088a8ce5d081b8aull, 0x70892a285f508f0eull, 0x708f8e9144666385ull, 0x708f8e9144666386ull,
0x708f9508f7b6cfb2ull, 0x708f9508f7b6cfb3ull, 0x70927e9ac5c614a7ull, 0x70927e9ac5c614a8ull, 0x7092df9e477c6b4aull, 0x7092df9e477c6b4bull, 0x709648bdd6e57705ull, 0x709648bdd6e57706ull,
0x7099ec2f62bd3c54ull, 0x709f9508f7b6cfb2ull, 0x709f9508f7b6cfb3ull, 0x709fefb174b7a627ull, 0x70a2efc987c579bbull, 0x70a648bdd6e57705ull, 0x70a648bdd6e57706ull, 0x70a93a539f999d7eull,
0x70a93a539f999d7full, 0x70a94a7edfe2abefull, 0x70aed301f44a226cull, 0x70aed301f44a226dull, 0x70af74b27724b2d1ull, 0x70af74b27724b2d2ull, 0x70b2efc987c579bbull, 0x70b3204b48a0a50cull,
0x70b3204b48a0a50dull, 0x70b93a539f999d7eull, 0x70b93a539f999d7full, 0x70b94a7edfe2abefull, 0x70bed301f44a226cull, 0x70bed301f44a226dull, 0x70bf74b27724b2d1ull, 0x70bf74b27724b2d2ull,
0x70c3204b48a0a50cull, 0x70c3204b48a0a50dull, 0x70c60cf8f38b0464ull, 0x70c60cf8f38b0465ull, 0x70c648bdd6e57705ull, 0x70c648bdd6e57706ull, 0x70c8f9a69e7563bcull, 0x70c8f9a69e7563bdull,
0x70c94a7edfe2abefull, 0x70ccc73ee672d42eull, 0x70d1591c31be2d2eull, 0x70d3204b48a0a50cull, 0x70d3204b48a0a50dull, 0x70d60cf8f38b0464ull, 0x70d60cf8f38b0465ull, 0x70d648bdd6e57705ull,
0x70d648bdd6e57706ull, 0x70dd3ec8ad27b970ull, 0x70ddfe5ba1af8325ull, 0x70ddfe5ba1af8326ull, 0x70e1591c31be2d2eull, 0x70e496a21e15d4b8ull, 0x70e496a21e15d4b9ull, 0x70e60cf8f38b0464ull,
0x70e60cf8f38b0465ull, 0x70ed7a8d90822c11ull, 0x70edfe5ba1af8325ull, 0x70edfe5ba1af8326ull, 0x70f551cd88d06c8eull, 0x70f551cd88d06c8full, 0x70f60cf8f38b0464ull, 0x70f60cf8f38b0465ull,
0x70f648bdd6e57705ull, 0x70f648bdd6e57706ull, 0x70fc8b7a0318618dull, 0x70fd7a8d90822c11ull, 0x7102651fdde60d36ull, 0x7102651fdde60d37ull, 0x710551cd88d06c8eull, 0x710551cd88d06c8full,
0x7105af633e2db879ull, 0x7105af633e2db87aull, 0x71060cf8f38b0464ull, 0x71060cf8f38b0465ull, 0x710648bdd6e57705ull, 0x710648bdd6e57706ull, 0x710d20e63b7a801full, 0x710d20e63b7a8020ull,
0x7114390c68b888cdull, 0x7114390c68b888ceull, 0x71158098637f1284ull, 0x7115af633e2db879ull, 0x7115af633e2db87aull, 0x71160cf8f38b0464ull, 0x71160cf8f38b0465ull, 0x711648bdd6e57705ull,
0x711648bdd6e57706ull, 0x7119b4d2092ffb92ull, 0x7119b4d2092ffb93ull, 0x712091335313919full, 0x71209133531391a0ull, 0x71252302ae21c699ull, 0x71258098637f1284ull, 0x7125af633e2db879ull,
0x7125af633e2db87aull, 0x71260cf8f38b0464ull, 0x71260cf8f38b0465ull, 0x7129b4d2092ffb92ull, 0x7129b4d2092ffb93ull, 0x713091335313919full, 0x71309133531391a0ull, 0x71352302ae21c699ull,
0x71360cf8f38b0464ull, 0x71360cf8f38b0465ull, 0x7139b4d2092ffb92ull, 0x7139b4d2092ffb93ull, 0x713d20e63b7a801full, 0x713d20e63b7a8020ull, 0x71404f3d254df3d8ull, 0x71404f3d254df3d9ull,
0x714091335313919full, 0x71409133531391a0ull, 0x71452302ae21c699ull, 0x7146d90cc74708dfull, 0x7146d90cc74708e0ull, 0x7149b4d2092ffb92ull, 0x7149b4d2092ffb93ull, 0x714ae0be7c5ed725ull,
0x715091335313919full, 0x71509133531391a0ull, 0x7153b5200d2d4d3full, 0x7153b5200d2d4d40ull, 0x71552302ae21c699ull, 0x715ae0be7c5ed725ull, 0x715cb4ab073152bcull, 0x715dbf9c637d5f6bull,
0x716091335313919full, 0x71609133531391a0ull, 0x71622329b0206f6full, 0x71622329b0206f70ull, 0x71652302ae21c699ull, 0x7168ebd6daa98caaull, 0x7168ebd6daa98cabull, 0x716ada8d31f3abffull,
0x716d20e63b7a801full, 0x716d20e63b7a8020ull, 0x71715a2e819a0087ull, 0x71715a2e819a0088ull, 0x71722329b0206f6full, 0x71722329b0206f70ull, 0x71752302ae21c699ull, 0x717547166a3a2b0full,
0x717547166a3a2b10ull, 0x717ada8d31f3abffull, 0x717c502d6fee1b48ull, 0x71815a2e819a0087ull, 0x71815a2e819a0088ull, 0x7181beac18dd37fbull, 0x7181beac18dd37fcull, 0x718547166a3a2b0full,
0x718547166a3a2b10ull, 0x7188b9980f07f0f0ull, 0x7188b9980f07f0f1ull, 0x718c502d6fee1b48ull, 0x71915a2e819a0087ull, 0x71915a2e819a0088ull, 0x71918c6d4d3b9c41ull, 0x71918c6d4d3b9c42ull,
0x7191beac18dd37fbull, 0x7191beac18dd37fcull, 0x719350a275ea15cbull, 0x719350a275ea15ccull, 0x719547166a3a2b0full, 0x719547166a3a2b10ull, 0x7196eda549538177ull, 0x71a15a2e819a0087ull,
0x71a15a2e819a0088ull, 0x71a1a58cb30c6a1eull, 0x71a1a58cb30c6a1full, 0x71a1beac18dd37fbull, 0x71a1beac18dd37fcull, 0x71a255687bc20b29ull, 0x71a255687bc20b2aull, 0x71a547166a3a2b0full,
0x71a547166a3a2b10ull, 0x71a6eda549538177ull, 0x71b05ef48771f5e5ull, 0x71b05ef48771f5e6ull, 0x71b15a2e819a0087ull, 0x71b15a2e819a0088ull, 0x71b1a58cb30c6a1eull, 0x71b1a58cb30c6a1full,
0x71b1b21c65f4d10dull, 0x71b1d7cb7eae05d8ull, 0x71b1d7cb7eae05d9ull, 0x71b547166a3a2b0full, 0x71b547166a3a2b10ull, 0x71c05ef48771f5e5ull, 0x71c05ef48771f5e6ull, 0x71c198fd00240330ull,
0x71c1b21c65f4d10dull, 0x71c1d7cb7eae05d8ull, 0x71c1d7cb7eae05d9ull, 0x71c2d30578d6107aull, 0x71c2d30578d6107bull, 0x71ca7e9ae606d2a5ull, 0x71d198fd00240330ull, 0x71d2d30578d6107aull,
0x71d2d30578d6107bull, 0x71d547166a3a2b0full, 0x71d547166a3a2b10ull, 0x71daa449fec00770ull, 0x71daa449fec00771ull, 0x71de49d81d7fd136ull, 0x71e198fd00240330ull, 0x71e547166a3a2b0full,
0x71e547166a3a2b10ull, 0x71eb9f83f8e81212ull, 0x71eb9f83f8e81213ull, 0x71ee49d81d7fd136ull, 0x71ef0a893ec9083cull, 0x71ef0a893ec9083dull, 0x71f198fd00240330ull, 0x71f6b762161fdce8ull,
0x71f6b762161fdce9ull, 0x71fb9f83f8e81212ull, 0x71fb9f83f8e81213ull, 0x71fcd98c719a1f5dull, 0x71ff0a893ec9083cull, 0x71ff0a893ec9083dull, 0x720198fd00240330ull, 0x7205ff3c402d03fcull,
0x720827adc2058ec1ull, 0x720827adc2058ec2ull, 0x72096c6458e391acull, 0x72096c6458e391adull, 0x720b6940c5b46d84ull, 0x720cd98c719a1f5dull, 0x72107f6d3021c2fdull, 0x72148ef094475223ull,
0x7215ff3c402d03fcull, 0x72196c6458e391acull, 0x72196c6458e391adull, 0x721f01fdf372aa22ull, 0x721f01fdf372aa23ull, 0x72207f6d3021c2fdull, 0x722121c87b90c472ull, 0x722121c87b90c473ull,
0x72296c6458e391acull, 0x72296c6458e391adull, 0x722f01fdf372aa22ull, 0x722f01fdf372aa23ull, 0x72307f6d3021c2fdull, 0x723121c87b90c472ull, 0x723121c87b90c473ull, 0x723827adc2058ec1ull,
0x723827adc2058ec2ull, 0x72396c6458e391acull, 0x72396c6458e391adull, 0x723b7f0b503844fbull, 0x723eec3368eed2abull, 0x723eec3368eed2acull, 0x72407f6d3021c2fdull, 0x724121c87b90c472ull,
0x724121c87b90c473ull, 0x7244a4bb1ecb299aull, 0x724b7f0b503844fbull, 0x724bd5ab9890bb93ull, 0x724bd5ab9890bb94ull, 0x724eec3368eed2abull, 0x724eec3368eed2acull, 0x72507f6d3021c2fdull,
0x7254a4bb1ecb299aull, 0x725655dc88857a94ull, 0x725655dc88857a95ull, 0x725b74260af6593full, 0x725b74260af65940ull, 0x725b7f0b503844fbull, 0x725fca36c06cf106ull, 0x725fca36c06cf107ull,
0x7264a4bb1ecb299aull, 0x726b74260af6593full, 0x726b74260af65940ull, 0x726b7f0b503844fbull, 0x726c44ad444fcac1ull, 0x726f0494cc556b40ull, 0x726f0494cc556b41ull, 0x726fca36c06cf106ull,
0x726fca36c06cf107ull, 0x7274a4bb1ecb299aull, 0x7276c4de344489c2ull, 0x7277f13367bbf418ull, 0x7279cde9e67df400ull, 0x7279cde9e67df401ull, 0x727b7f0b503844fbull, 0x727fca36c06cf106ull,
0x727fca36c06cf107ull, 0x728279b2c40fddb6ull, 0x728279b2c40fddb7ull, 0x7286c4de344489c2ull, 0x728921f4c23e675eull, 0x728921f4c23e675full, 0x7289cde9e67df400ull, 0x7289cde9e67df401ull,
0x728fca36c06cf106ull, 0x728fca36c06cf107ull, 0x729113a6a7336751ull, 0x729113a6a7336752ull, 0x729921f4c23e675eull, 0x729921f4c23e675full, 0x729ccc1053757283ull, 0x729ccc1053757284ull,
0x729ed32c4f4f89cfull, 0x729fca36c06cf106ull, 0x729fca36c06cf107ull, 0x72a3d19d0c8ef6faull, 0x72a3d19d0c8ef6fbull, 0x72a921f4c23e675eull, 0x72a921f4c23e675full, 0x72ac7615c155ac32ull,
0x72ac7615c155ac33ull, 0x72aded8041aaf11eull, 0x72ae4b2389f131c5ull, 0x72afca36c06cf106ull, 0x72afca36c06cf107ull, 0x72b67220314034d6ull, 0x72b67220314034d7ull, 0x72bacc0541ca09c8ull,
0x72bacc0541ca09c9ull, 0x72bb4cfd1cf9b342ull, 0x72bc7615c155ac32ull, 0x72bc7615c155ac33ull, 0x72be4b2389f131c5ull, 0x72bfca36c06cf106ull, 0x72bfca36c06cf107ull, 0x72c521de9ee795e8ull,
0x72c521de9ee795e9ull, 0x72c777e442b2c4f4ull, 0x72c777e442b2c4f5ull, 0x72cacc0541ca09c8ull, 0x72cacc0541ca09c9ull, 0x72cb4cfd1cf9b342ull, 0x72cba10d818fdafdull, 0x72cba10d818fdafeull,
0x72cfca36c06cf106ull, 0x72cfca36c06cf107ull, 0x72d2815b7a36580cull, 0x72d2815b7a36580dull, 0x72d479bdd5bb4671ull, 0x72d479bdd5bb4672ull, 0x72d777e442b2c4f4ull, 0x72d777e442b2c4f5ull,
0x72dba10d818fdafdull, 0x72dba10d818fdafeull, 0x72dbf51de62602b9ull, 0x72df3dc1d403900cull, 0x72e2815b7a36580cull, 0x72e2815b7a36580dull, 0x72e479bdd5bb4671ull, 0x72e479bdd5bb4672ull,
0x72e98c78e2214ff9ull, 0x72eba10d818fdafdull, 0x72eba10d818fdafeull, 0x72ebf51de62602b9ull, 0x72f13a26646723e7ull, 0x72f425ad71251eb6ull, 0x72f98c78e2214ff9ull, 0x72fba10d818fdafdull,
0x72fba10d818fdafeull, 0x72fbf51de62602b9ull, 0x73013a26646723e7ull, 0x730433a4f950417dull, 0x73080d65aba590b7ull, 0x73080d65aba590b8ull, 0x730ba10d818fdafdull, 0x730ba10d818fdafeull,
0x730bf51de62602b9ull, 0x73121f1059e1b678ull, 0x73121f1059e1b679ull, 0x731303fa4f5c490aull, 0x73166913b4b6ca0eull, 0x73180d65aba590b7ull, 0x73180d65aba590b8ull, 0x731ba10d818fdafdull,
0x731ba10d818fdafeull, 0x731bf51de62602b9ull, 0x732303fa4f5c490aull, 0x7326e00eedb8c8bbull, 0x73280d65aba590b7ull, 0x73280d65aba590b8ull, 0x73292f18cd6e6663ull, 0x73292f18cd6e6664ull,
0x732ba10d818fdafdull, 0x732ba10d818fdafeull, 0x732bf51de62602b9ull, 0x733303fa4f5c490aull, 0x733394d3e040b3e0ull, 0x7336e00eedb8c8bbull, 0x733ba10d818fdafdull, 0x733ba10d818fdafeull,
0x733bf51de62602b9ull, 0x733cce643f7ca2faull, 0x734303fa4f5c490aull, 0x734394d3e040b3e0ull, 0x7347c4f8e3335b4cull, 0x7347c4f8e3335b4dull, 0x734bf51de62602b9ull, 0x734c0358a1e47c91ull,
0x734c0358a1e47c92ull, 0x734caa2ddb438844ull, 0x734caa2ddb438845ull, 0x735303fa4f5c490aull, 0x7354fef3ca7bbef7ull, 0x7357c4f8e3335b4cull, 0x7357c4f8e3335b4dull, 0x735bf51de62602b9ull,
0x735caa2ddb438844ull, 0x735caa2ddb438845ull, 0x735ef891f312840bull, 0x73643d478d605448ull, 0x7367c4f8e3335b4cull, 0x7367c4f8e3335b4dull, 0x73687a08d850e0d8ull, 0x736a37935f3b71c8ull,
0x736a37935f3b71c9ull, 0x736bf51de62602b9ull, 0x736ef891f312840bull, 0x737167694529a965ull, 0x7378fe462137668aull, 0x7378fe462137668bull, 0x737a37935f3b71c8ull, 0x737a37935f3b71c9ull,
0x737bf51de62602b9ull, 0x737f9ae327369223ull, 0x737f9ae327369224ull, 0x738167694529a965ull, 0x7384191129273992ull, 0x7384191129273993ull, 0x73899aecc0396c29ull, 0x73899aecc0396c2aull,
0x738a37935f3b71c8ull, 0x738a37935f3b71c9ull, 0x738f9ae327369223ull, 0x738f9ae327369224ull, 0x739167694529a965ull, 0x73972852443155adull, 0x73972852443155aeull, 0x73999aecc0396c29ull,
0x73999aecc0396c2aull, 0x7399e9400fba6ef9ull, 0x739a37935f3b71c8ull, 0x739a37935f3b71c9ull, 0x739e988b0e65190eull, 0x73a109d00e1d1d77ull, 0x73a109d00e1d1d78ull, 0x73a8aff2d1b663bbull,
0x73a99aecc0396c29ull, 0x73a99aecc0396c2aull, 0x73a9e9400fba6ef9ull, 0x73aa37935f3b71c8ull, 0x73aa37935f3b71c9ull, 0x73ae988b0e65190eull, 0x73b109d00e1d1d77ull, 0x73b109d00e1d1d78ull,
0x73b6f2684acbd2caull, 0x73b6f2684acbd2cbull, 0x73b8aff2d1b663bbull, 0x73b95feb79a5663cull, 0x73b95feb79a5663dull, 0x73ba37935f3b71c8ull, 0x73ba37935f3b71c9ull, 0x73c109d00e1d1d77ull,
0x73c109d00e1d1d78ull, 0x73c347c6640b51d3ull, 0x73c3fe1c2c747821ull, 0x73c534ddc3e141daull, 0x73c8aff2d1b663bbull, 0x73ca37935f3b71c8ull, 0x73ca37935f3b71c9ull, 0x73d109d00e1d1d77ull,
0x73d109d00e1d1d78ull, 0x73d347c6640b51d3ull, 0x73d657077f156deeull, 0x73d8aff2d1b663bbull, 0x73da37935f3b71c8ull, 0x73da37935f3b71c9ull, 0x73dba43ef00dbe64ull, 0x73dba43ef00dbe65ull,
0x73e109d00e1d1d77ull, 0x73e109d00e1d1d78ull, 0x73e657077f156deeull, 0x73e7837d2865e8d4ull, 0x73e7837d2865e8d5ull, 0x73e8aff2d1b663bbull, 0x73eba43ef00dbe64ull, 0x73eba43ef00dbe65ull,
0x73ede8926676168cull, 0x73ede8926676168dull, 0x73f1edbb48a08d59ull, 0x73f657077f156deeull, 0x73fba43ef00dbe64ull, 0x73fba43ef00dbe65ull, 0x73fc3553cda7d46eull, 0x73fc3553cda7d46full,
0x73fcc668ab41ea78ull, 0x73fcc668ab41ea79ull, 0x73fe45b4b17bbf36ull, 0x73fe45b4b17bbf37ull, 0x7400c1459f501272ull, 0x7400c1459f501273ull, 0x7401edbb48a08d59ull, 0x740ba43ef00dbe64ull,
0x740ba43ef00dbe65ull, 0x740c3553cda7d46eull, 0x740c3553cda7d46full, 0x740e45b4b17bbf36ull, 0x740e45b4b17bbf37ull, 0x74106f5d1a747f22ull, 0x7410c1459f501272ull, 0x7410c1459f501273ull,
0x741becc95edac969ull, 0x741becc95edac96aull, 0x741c110e96414eecull, 0x741c3553cda7d46eull, 0x741c3553cda7d46full, 0x741f18d315827294ull, 0x741f18d315827295ull, 0x742026d2aba7741dull,
0x74239e492ae602f1ull, 0x74239e492ae602f2ull, 0x7429340b0aab5e6dull, 0x742becc95edac969ull, 0x742becc95edac96aull, 0x742c110e96414eecull, 0x742f18d315827294ull, 0x742f18d315827295ull,
0x7430028d7440ee9aull, 0x7430028d7440ee9bull, 0x74339e492ae602f1ull, 0x74339e492ae602f2ull, 0x7439340b0aab5e6dull, 0x743becc95edac969ull, 0x743becc95edac96aull, 0x743c110e96414eecull,
0x743ef48dde1bed12ull, 0x7440028d7440ee9aull, 0x7440028d7440ee9bull, 0x74401c27581dd914ull, 0x74439e492ae602f1ull, 0x74439e492ae602f2ull, 0x74450ccaf0b0fb31ull, 0x744becc95edac969ull,
0x744becc95edac96aull, 0x744fa1199ab56aa6ull, 0x7450028d7440ee9aull, 0x7450028d7440ee9bull, 0x74504b17e30df99full, 0x74504b17e30df9a0ull, 0x74518aa91de8d153ull, 0x74518aa91de8d154ull,
0x745f6eeb31a2f347ull, 0x745f7cd4634ee523ull, 0x745f7cd4634ee524ull, 0x745ff75f79022970ull, 0x74604b17e30df99full, 0x74604b17e30df9a0ull, 0x74616663e6824bd1ull, 0x74618aa91de8d153ull,
0x74618aa91de8d154ull, 0x746dbffce3f22119ull, 0x746dbffce3f2211aull, 0x746faed50a351e6bull, 0x7471421eaf1bc64eull, 0x7471421eaf1bc64full, 0x74718aa91de8d153ull, 0x74718aa91de8d154ull,
0x7471f778c41c61dbull, 0x747423312e254f59ull, 0x7477a55300ed7936ull, 0x7477a55300ed7937ull, 0x747a3ddb1129f73cull, 0x74808cc49a1b2ac2ull, 0x7481f778c41c61dbull, 0x74841787031e3480ull,
0x74841787031e3481ull, 0x748a3ddb1129f73cull, 0x748ea996a67dccf1ull, 0x748ea996a67dccf2ull, 0x74908cc49a1b2ac2ull, 0x7493ae644cdf796dull, 0x74961aa9eaa32c8bull, 0x74961aa9eaa32c8cull,
0x749a3ddb1129f73cull, 0x749c5de9502bc9e1ull, 0x749c5de9502bc9e2ull, 0x749ea996a67dccf1ull, 0x749ea996a67dccf2ull, 0x74a066a8eaba3a85ull, 0x74a066a8eaba3a86ull, 0x74a08cc49a1b2ac2ull,
0x74a3ae644cdf796dull, 0x74ac5de9502bc9e1ull, 0x74ac5de9502bc9e2ull, 0x74acaa20aeedaa5aull, 0x74acaa20aeedaa5bull, 0x74aea996a67dccf1ull, 0x74aea996a67dccf2ull, 0x74b066a8eaba3a85ull,
0x74b066a8eaba3a86ull, 0x74b08cc49a1b2ac2ull, 0x74b5d8fd3395fb69ull, 0x74bcaa20aeedaa5aull, 0x74bcaa20aeedaa5bull, 0x74c066a8eaba3a85ull, 0x74c066a8eaba3a86ull, 0x74c08cc49a1b2ac2ull,
0x74ccaa20aeedaa5aull, 0x74ccaa20aeedaa5bull, 0x74cd17db911e703full, 0x74cf9c745a6cf327ull, 0x74d066a8eaba3a85ull, 0x74d066a8eaba3a86ull, 0x74d08cc49a1b2ac2ull, 0x74d68864ccd3f270ull,
0x74dc37cda0cad9a5ull, 0x74def296b34972a5ull, 0x74e066a8eaba3a85ull, 0x74e066a8eaba3a86ull, 0x74e08cc49a1b2ac2ull, 0x74e9507d80147609ull, 0x74ebaadb512433bdull, 0x74ebaadb512433beull,
0x74ec9838e239b4f0ull, 0x74ec9838e239b4f1ull, 0x74eea8ab6a809794ull, 0x74eea8ab6a809795ull, 0x74f066a8eaba3a85ull, 0x74f066a8eaba3a86ull, 0x74f165ee4883b122ull, 0x74f165ee4883b123ull,
0x74f4aff5c0a1f572ull, 0x74f4aff5c0a1f573ull, 0x74f5891f6f0a7bd3ull, 0x74f608c21def3721ull, 0x74f608c21def3722ull, 0x74fa857a43f9cce4ull, 0x750337b58454b8d3ull, 0x750337b58454b8d4ull,
0x7504aff5c0a1f572ull, 0x7504aff5c0a1f573ull, 0x7505891f6f0a7bd3ull, 0x750608c21def3721ull, 0x750608c21def3722ull, 0x750a857a43f9cce4ull, 0x750c2a7e0008ef0cull, 0x7513e41bb2fb59abull,
0x7514a03bd121f7faull, 0x7514a03bd121f7fbull, 0x7515891f6f0a7bd3ull, 0x751608c21def3721ull, 0x751608c21def3722ull, 0x7518d9ceb789b56full, 0x7518d9ceb789b570ull, 0x751b515451a068abull,
0x751b515451a068acull, 0x7520936c6a7c200eull, 0x7520936c6a7c200full, 0x7521cf2f378779acull, 0x7521cf2f378779adull, 0x75231841a554bde3ull, 0x75231841a554bde4ull, 0x7528d9ceb789b56full,
0x7528d9ceb789b570ull, 0x752c1d2e5f470473ull, 0x752ea2039a1fa248ull, 0x7530936c6a7c200eull, 0x7530936c6a7c200full, 0x7531cf2f378779acull, 0x7531cf2f378779adull, 0x7535547ef788978eull,
0x753c93beef0cb796ull, 0x753ea2039a1fa248ull, 0x753fe46e378bf132ull, 0x753fe46e378bf133ull, 0x7545547ef788978eull, 0x754c796eb34bc573ull, 0x754c796eb34bc574ull, 0x754c93beef0cb796ull,
0x754ea2039a1fa248ull, 0x754fe46e378bf132ull, 0x754fe46e378bf133ull, 0x75556ecf334989b0ull, 0x75556ecf334989b1ull, 0x75559d16e02d5bb8ull, 0x75559d16e02d5bb9ull, 0x7556f982b397b9b6ull,
0x755ea2039a1fa248ull, 0x755fe46e378bf132ull, 0x755fe46e378bf133ull, 0x756325424053c56dull, 0x75656ecf334989b0ull, 0x75656ecf334989b1ull, 0x7566f982b397b9b6ull, 0x756aa99eb56abd71ull,
0x756aa99eb56abd72ull, 0x756d4597c6b5444aull, 0x756d4597c6b5444bull, 0x756fe46e378bf132ull, 0x756fe46e378bf133ull, 0x7570e7473896f5abull, 0x7570e7473896f5acull, 0x75713b2206b1cb48ull,
0x75713b2206b1cb49ull, 0x757325424053c56dull, 0x757aa99eb56abd71ull, 0x757aa99eb56abd72ull, 0x757d4597c6b5444aull, 0x757d4597c6b5444bull, 0x757fe46e378bf132ull, 0x757fe46e378bf133ull,
0x7580e7473896f5abull, 0x7580e7473896f5acull, 0x75813b2206b1cb48ull, 0x75813b2206b1cb49ull, 0x7585c872f700d98eull, 0x7585c872f700d98full, 0x758aa99eb56abd71ull, 0x758aa99eb56abd72ull,
0x758b5b778d134a26ull, 0x758fe46e378bf132ull, 0x758fe46e378bf133ull, 0x7590e7473896f5abull, 0x7590e7473896f5acull, 0x75913b2206b1cb48ull, 0x75913b2206b1cb49ull, 0x759325424053c56dull,
0x759865dab811736full, 0x759b5b778d134a26ull, 0x759cfebd93997637ull, 0x75a0e7473896f5abull, 0x75a0e7473896f5acull, 0x75a13b2206b1cb48ull, 0x75a13b2206b1cb49ull, 0x75a325424053c56dull,
0x75a7405ce6b387c9ull, 0x75a7405ce6b387caull, 0x75ad1a34949faf63ull, 0x75afba80d07e8664ull, 0x75b325424053c56dull, 0x75b3b180db83377bull, 0x75b59ba11525319full, 0x75b59ba1152531a0ull,
0x75b9fc20239897f6ull, 0x75b9fc20239897f7ull, 0x75bd1a34949faf63ull, 0x75bf746182e6cd5dull, 0x75c1c760a1e13d56ull, 0x75c1c760a1e13d57ull, 0x75c3b180db83377bull, 0x75c48499a9ce779cull,
0x75c48499a9ce779dull, 0x75cb588bf702f5f4ull, 0x75cb5a01c20b200dull, 0x75cf746182e6cd5dull, 0x75d1c760a1e13d56ull, 0x75d1c760a1e13d57ull, 0x75d48499a9ce779cull, 0x75d48499a9ce779dull,
0x75d992f12f35026cull, 0x75db5a01c20b200dull, 0x75df746182e6cd5dull, 0x75e1c760a1e13d56ull, 0x75e1c760a1e13d57ull, 0x75e483dec44a6290ull, 0x75eb5a01c20b200dull, 0x75ec83a9590de7e4ull,
0x75ec83a9590de7e5ull, 0x75ef746182e6cd5dull, 0x75f0c0c8b1aa5202ull, 0x75f0c0c8b1aa5203ull, 0x75f48268f9423877ull, 0x75f7eef0432ac14eull, 0x75f7eef0432ac14full, 0x75fb5a01c20b200dull,
0x75fb5c3272975f32ull, 0x75fb5c3272975f33ull, 0x75ff746182e6cd5dull, 0x760117577a61d9b8ull, 0x760117577a61d9b9ull, 0x7602cdf8921828aaull, 0x7602cdf8921828abull, 0x760b5a01c20b200dull,
0x760ec743f177bdf1ull, 0x760f746182e6cd5dull, 0x760ff7ad7b024307ull, 0x76103d7cb98edc58ull, 0x76103d7cb98edc59ull, 0x761117577a61d9b8ull, 0x761117577a61d9b9ull, 0x761d0fe7f43d59f2ull,
0x761d0fe7f43d59f3ull, 0x761dea7d9a946c5full, 0x761f746182e6cd5dull, 0x761fb6077ef48832ull, 0x76203d7cb98edc58ull, 0x76203d7cb98edc59ull, 0x7623a88e386f3b17ull, 0x762f32bb86d91288ull,
0x762f746182e6cd5dull, 0x762f953480edaac7ull, 0x762f953480edaac8ull, 0x76303d7cb98edc58ull, 0x76303d7cb98edc59ull, 0x763117577a61d9b8ull, 0x763117577a61d9b9ull, 0x763a11c3d5c679e4ull,
0x763f32bb86d91288ull, 0x763fd6da7cfb659cull, 0x763fd6da7cfb659dull, 0x76403d7cb98edc58ull, 0x76403d7cb98edc59ull, 0x7640aa6a19f85b08ull, 0x7640aa6a19f85b09ull, 0x7647660ca522cde6ull,
0x764d465ea472194aull, 0x764d465ea472194bull, 0x764fd6da7cfb659cull, 0x764fd6da7cfb659dull, 0x76503d7cb98edc58ull, 0x76503d7cb98edc59ull, 0x765073f369c39bb0ull, 0x765073f369c39bb1ull,
0x76537fb53447ab95ull, 0x7656c1edaf007ad1ull, 0x7656c1edaf007ad2ull, 0x765fd6da7cfb659cull, 0x765fd6da7cfb659dull, 0x76603d7cb98edc58ull, 0x76603d7cb98edc59ull, 0x766058b811a93c04ull,
0x766058b811a93c05ull, 0x7660e0e0ca2d1a60ull, 0x7660e0e0ca2d1a61ull, 0x76637fb53447ab95ull, 0x766fa11eb24abb51ull, 0x76703d7cb98edc58ull, 0x76703d7cb98edc59ull, 0x76704b1a659c0c2eull,
0x76704b1a659c0c2full, 0x767058b811a93c04ull, 0x767058b811a93c05ull, 0x76737fb53447ab95ull, 0x7679fd5753b2b223ull, 0x767fa11eb24abb51ull, 0x768014a3b5674cd6ull, 0x768014a3b5674cd7ull,
0x76803d7cb98edc58ull, 0x76803d7cb98edc59ull, 0x7680444b8f957443ull, 0x7680444b8f957444ull, 0x768058b811a93c04ull, 0x768058b811a93c05ull, 0x76837fb53447ab95ull, 0x7686be8643fd2edcull,
0x769036ade388446dull, 0x769036ade388446eull, 0x76903d7cb98edc58ull, 0x76903d7cb98edc59ull, 0x769040e42492284eull, 0x769058b811a93c04ull, 0x769058b811a93c05ull, 0x769124f5266f098eull,
0x769124f5266f098full, 0x769fa11eb24abb51ull, 0x76a036ade388446dull, 0x76a036ade388446eull, 0x76a040e42492284eull, 0x76a047b2fa98c039ull, 0x76a07ac23fca339bull, 0x76a07ac23fca339cull,
0x76a85deecbd7f07full, 0x76a85deecbd7f080ull, 0x76afa11eb24abb51ull, 0x76b025a8cc77c8a2ull, 0x76b040e42492284eull, 0x76b047b2fa98c039ull, 0x76b07ac23fca339bull, 0x76b07ac23fca339cull,
0x76b85a8760d4a48aull, 0x76bc6e27d4fc7a93ull, 0x76c025a8cc77c8a2ull, 0x76c1cf280d13df81ull, 0x76c1cf280d13df82ull, 0x76c4511d2db6b261ull, 0x76c4511d2db6b262ull, 0x76c85a8760d4a48aull,
0x76c88d96a60617ecull, 0x76c88d96a60617edull, 0x76d025a8cc77c8a2ull, 0x76d243e5889f7b67ull, 0x76d243e5889f7b68ull, 0x76d9e1fc734fc3d2ull, 0x76d9e1fc734fc3d3ull, 0x76da67bf05ebdb84ull,
0x76dc9700d9240a15ull, 0x76e025a8cc77c8a2ull, 0x76e34a815b2b16e4ull, 0x76e34a815b2b16e5ull, 0x76e9e1fc734fc3d2ull, 0x76e9e1fc734fc3d3ull, 0x76ea67bf05ebdb84ull, 0x76ee71293909cdacull,
0x76ee71293909cdadull, 0x76f025a8cc77c8a2ull, 0x76f3cdcf4470e4a3ull, 0x76f9e4711ca60dc5ull, 0x76f9e4711ca60dc6ull, 0x76fa67bf05ebdb84ull, 0x76fe71293909cdacull, 0x76fe71293909cdadull,
0x76ff1b5c1faea39full, 0x76ff1b5c1faea3a0ull, 0x770025a8cc77c8a2ull, 0x770248b1d46f08bcull, 0x770248b1d46f08bdull, 0x7703cdcf4470e4a3ull, 0x770daea1c2c0215dull, 0x770daea1c2c0215eull,
0x770e71293909cdacull, 0x770e71293909cdadull, 0x771025a8cc77c8a2ull, 0x771080d763b36932ull, 0x771080d763b36933ull, 0x771b2431584c523cull, 0x771cf8449448e03cull, 0x771cf8449448e03dull,
0x771f5821035c383dull, 0x772025a8cc77c8a2ull, 0x772080d763b36932ull, 0x772080d763b36933ull, 0x77248a4196d15b5bull, 0x772e12f00fd99250ull, 0x772e12f00fd99251ull, 0x772fd1b94e25e4c0ull,
0x772fd1b94e25e4c1ull, 0x773025a8cc77c8a2ull, 0x773080d763b36932ull, 0x773080d763b36933ull, 0x7733b57ab4cc0e47ull, 0x77342f12ff95bacaull, 0x77342f12ff95bacbull, 0x773ac5f82f1c16e0ull,
0x773e09d059fbc1eeull, 0x774025a8cc77c8a2ull, 0x774080d763b36932ull, 0x774080d763b36933ull, 0x77442f12ff95bacaull, 0x77442f12ff95bacbull, 0x774de3d37b4174a2ull, 0x774de3d37b4174a3ull,
0x774e09d059fbc1eeull, 0x774f2a90f975a999ull, 0x77539eb2afd8c6f5ull, 0x77542f12ff95bacaull, 0x77542f12ff95bacbull, 0x775732556f7a6eeaull, 0x775732556f7a6eebull, 0x7757a81ce2f6b91dull,
0x7757a81ce2f6b91eull, 0x775de3d37b4174a2ull, 0x775de3d37b4174a3ull, 0x775e09d059fbc1eeull, 0x77639eb2afd8c6f5ull, 0x7763b57ab4cc0e47ull, 0x7766875c437cd172ull, 0x7766875c437cd173ull,
0x7767a81ce2f6b91dull, 0x7767a81ce2f6b91eull, 0x7769d2d61cf74121ull, 0x7769d2d61cf74122ull, 0x776bb1871614ab46ull, 0x77739eb2afd8c6f5ull, 0x7773b57ab4cc0e47ull, 0x77755b37a189461eull,
0x77755b37a189461full, 0x777a8b14755df1c6ull, 0x777a8b14755df1c7ull, 0x777bb1871614ab46ull, 0x77822d36e6a52aa0ull, 0x77822d36e6a52aa1ull, 0x7784c525508f8074ull, 0x7784c525508f8075ull,
0x7787b380e5705cc6ull, 0x7787b380e5705cc7ull, 0x778a8b14755df1c6ull, 0x778a8b14755df1c7ull, 0x778bb1871614ab46ull, 0x778c4799670e70f0ull, 0x7794c525508f8074ull, 0x7794c525508f8075ull,
0x77965c25ae018e33ull, 0x77965c25ae018e34ull, 0x779a8b14755df1c6ull, 0x779a8b14755df1c7ull, 0x779bfc903e918e1bull, 0x779e9fe2aaf58798ull, 0x77a3b57ab4cc0e47ull, 0x77a4c525508f8074ull,
0x77a4c525508f8075ull, 0x77a4eaa9e4cdf1dfull, 0x77a8c32b8133cef4ull, 0x77abfc903e918e1bull, 0x77ad28b4e085196full, 0x77b4c525508f8074ull, 0x77b4c525508f8075ull, 0x77b4eaa9e4cdf1dfull,
0x77b63c531affee9dull, 0x77b63c531affee9eull, 0x77b8739d11afbffdull, 0x77b8c32b8133cef4ull, 0x77bc6d1dfb4ce25aull, 0x77bc6d1dfb4ce25bull, 0x77c29260a0e6db37ull, 0x77c4c525508f8074ull,
0x77c4c525508f8075ull, 0x77c6af237b3ed8eeull, 0x77c8739d11afbffdull, 0x77cc6d1dfb4ce25aull, 0x77cc6d1dfb4ce25bull, 0x77cf85836b735c39ull, 0x77d29260a0e6db37ull, 0x77d3b57ab4cc0e47ull,
0x77d6af237b3ed8eeull, 0x77def3f66180c2b1ull, 0x77df85836b735c39ull, 0x77e2db2725e027fbull, 0x77e6af237b3ed8eeull, 0x77e954b88b26687cull, 0x77eb1a5373591a93ull, 0x77eb1a5373591a94ull,
0x77eef3f66180c2b1ull, 0x77ef85836b735c39ull, 0x77f1035a9c6f22b2ull, 0x77f1035a9c6f22b3ull, 0x77f9305548a9c21aull, 0x77f954b88b26687cull, 0x77fb1a5373591a93ull, 0x77fb1a5373591a94ull,
0x77fc245776539596ull, 0x77fc245776539597ull, 0x77ff85836b735c39ull, 0x7800ddb9830f0e9full, 0x7802ff8a685cce5dull, 0x780c245776539596ull, 0x780c245776539597ull, 0x780c5aec5a0e8f29ull,
0x780c5aec5a0e8f2aull, 0x780d985a55c1e7f8ull, 0x780f85836b735c39ull, 0x7810ddb9830f0e9full, 0x7812ff8a685cce5dull, 0x78160ed707e41ea3ull, 0x781c5aec5a0e8f29ull, 0x781c5aec5a0e8f2aull,
0x781f4eee87b862a6ull, 0x781fa9e6adf0029bull, 0x7822a49242252e68ull, 0x7822ff8a685cce5dull, 0x78260ed707e41ea3ull, 0x782c5aec5a0e8f29ull, 0x782c5aec5a0e8f2aull, 0x782f7c6a9ad432a0ull,
0x782f7c6a9ad432a1ull, 0x782fa9e6adf0029bull, 0x78315380d61c7fd8ull, 0x78347e17e7814ce7ull, 0x78347e17e7814ce8ull, 0x78360ed707e41ea3ull, 0x7839273c780a9881ull, 0x7839273c780a9882ull,
0x783eb89772f25e8full, 0x783fa9e6adf0029bull, 0x7840ddb9830f0e9full, 0x78415380d61c7fd8ull, 0x78447e17e7814ce7ull, 0x78447e17e7814ce8ull, 0x7849273c780a9881ull, 0x7849273c780a9882ull,
0x784d27d8528f8cd3ull, 0x784d27d8528f8cd4ull, 0x784dbdb4224de565ull, 0x78515380d61c7fd8ull, 0x78547e17e7814ce7ull, 0x78547e17e7814ce8ull, 0x7856d2aa2fc5f2b4ull, 0x7856d2aa2fc5f2b5ull,
0x78574db6d2ae7a02ull, 0x785d27d8528f8cd3ull, 0x785d27d8528f8cd4ull, 0x78615380d61c7fd8ull, 0x78647e17e7814ce7ull, 0x78647e17e7814ce8ull, 0x7865a8610ba39fceull, 0x78674db6d2ae7a02ull,
0x786f52486d531cceull, 0x786f52486d531ccfull, 0x7870ddb9830f0e9full, 0x78747e17e7814ce7ull, 0x78747e17e7814ce8ull, 0x7875a8610ba39fceull, 0x787a51859c2ceb68ull, 0x787e2613def06dfcull,
0x787f52486d531cceull, 0x787f52486d531ccfull, 0x78803e48c8bab7daull, 0x78803e48c8bab7dbull, 0x78847e17e7814ce7ull, 0x78847e17e7814ce8ull, 0x788781e6b0ffbe4dull, 0x788781e6b0ffbe4eull,
0x788a51859c2ceb68ull, 0x788f52486d531cceull, 0x788f52486d531ccfull, 0x78903e48c8bab7daull, 0x78903e48c8bab7dbull, 0x78947e17e7814ce7ull, 0x78947e17e7814ce8ull, 0x789781e6b0ffbe4dull,
0x789781e6b0ffbe4eull, 0x789a51859c2ceb68ull, 0x789b12794e8c87c1ull, 0x789b12794e8c87c2ull, 0x789d3260ddefd248ull, 0x78a3bd243521b08eull, 0x78a7c8489b06ea54ull, 0x78a7c8489b06ea55ull,
0x78a96c2dd2617f97ull, 0x78a96c2dd2617f98ull, 0x78aa51859c2ceb68ull, 0x78ab12794e8c87c1ull, 0x78ab12794e8c87c2ull, 0x78ae1648180af927ull, 0x78ae1648180af928ull, 0x78b072f3819c1321ull,
0x78b2d7cc6b5644bdull, 0x78b2d7cc6b5644beull, 0x78b3bd243521b08eull, 0x78b7c8489b06ea54ull, 0x78b7c8489b06ea55ull, 0x78b96d60f4c9b90bull, 0x78be1648180af927ull, 0x78be1648180af928ull,
0x78c072f3819c1321ull, 0x78c2d7cc6b5644bdull, 0x78c2d7cc6b5644beull, 0x78c7c8489b06ea54ull, 0x78c7c8489b06ea55ull, 0x78c96d60f4c9b90bull, 0x78cfbb6071cdc7deull, 0x78d072f3819c1321ull,
0x78d132b411937607ull, 0x78d23f7c8ab5e36dull, 0x78deab8b60c02859ull, 0x78deab8b60c0285aull, 0x78def62d051abff2ull, 0x78def62d051abff3ull, 0x78e072f3819c1321ull, 0x78e0e7859deb6432ull,
0x78e7673530a2ff6eull, 0x78ed5114ab57f13cull, 0x78eef62d051abff2ull, 0x78eef62d051abff3ull, 0x78f072f3819c1321ull, 0x78f0ad3c8fc3bba9ull, 0x78f0ad3c8fc3bbaaull, 0x78fd5114ab57f13cull,
0x78fef62d051abff2ull, 0x78fef62d051abff3ull, 0x78ff70becd733045ull, 0x790072f3819c1321ull, 0x790307bc8f541d77ull, 0x7905fccf8081f4edull, 0x790e863a8e92dc8dull, 0x790ef62d051abff2ull,
0x790ef62d051abff3ull, 0x791072f3819c1321ull, 0x7917f7059c9c899aull, 0x7917f7059c9c899bull, 0x791d41027ccbbf49ull, 0x791d41027ccbbf4aull, 0x791fb610c8e58167ull, 0x791fb610c8e58168ull,
0x7920183faeb54995ull, 0x7920183faeb54996ull, 0x792072f3819c1321ull, 0x792252aceb16f6c5ull, 0x792252aceb16f6c6ull, 0x7923f7c544d9c57cull, 0x7929519f85d81f47ull, 0x793072f3819c1321ull,
0x7933f7c544d9c57cull, 0x793c4e8f8d83d983ull, 0x793c4e8f8d83d984ull, 0x793c9bd0395dbcb4ull, 0x793ec0db9e4af17bull, 0x794072f3819c1321ull, 0x794851b96f835326ull, 0x794cf6840c44863full,
0x794cf6840c448640ull, 0x794ec0db9e4af17bull, 0x794fd36150c18bdeull, 0x794fd36150c18bdfull, 0x795072f3819c1321ull, 0x79523d4b13a27e5cull, 0x79523d4b13a27e5dull, 0x7957509e3c4d6824ull,
0x7957509e3c4d6825ull, 0x7958f5b6961036dbull, 0x795cf6840c44863full, 0x795cf6840c448640ull, 0x795fd36150c18bdeull, 0x795fd36150c18bdfull, 0x796185793412ad84ull, 0x796185793412ad85ull,
0x7964066d88c7cab7ull, 0x7964066d88c7cab8ull, 0x7967509e3c4d6824ull, 0x7967509e3c4d6825ull, 0x796799e78ff3824eull, 0x7968f5b6961036dbull, 0x796c3fe74995d448ull, 0x7971e5bcc3aac1c9ull,
0x7974066d88c7cab7ull, 0x7974066d88c7cab8ull, 0x797799e78ff3824eull, 0x797c3fe74995d448ull, 0x797d526cfc0c6eabull, 0x797d526cfc0c6eacull, 0x797e60980eb2dd36ull, 0x797e60980eb2dd37ull,
0x7980cda75482dcacull, 0x7980cda75482dcadull, 0x7981b36dabf6a1baull, 0x7981b36dabf6a1bbull, 0x79852fed77305f36ull, 0x798799e78ff3824eull, 0x798b16675b2d3fc9ull, 0x798b16675b2d3fcaull,
0x798d526cfc0c6eabull, 0x798d526cfc0c6eacull, 0x7990cda75482dcacull, 0x7990cda75482dcadull, 0x7991a7f08dfda4adull, 0x7991b36dabf6a1baull, 0x7991b36dabf6a1bbull, 0x799d696737fe68c6ull,
0x799d696737fe68c7ull, 0x799e9e64445ffa52ull, 0x799e9e64445ffa53ull, 0x79a1a7f08dfda4adull, 0x79a1b36dabf6a1baull, 0x79a1b36dabf6a1bbull, 0x79a78e6a71fa8540ull, 0x79a78e6a71fa8541ull,
0x79ad0d7e4836805aull, 0x79ad0d7e4836805bull, 0x79ae9e64445ffa52ull, 0x79ae9e64445ffa53ull, 0x79b1408a803cbf33ull, 0x79b1408a803cbf34ull, 0x79b1a7f08dfda4adull, 0x79b1b36dabf6a1baull,
0x79b1b36dabf6a1bbull, 0x79b78e6a71fa8540ull, 0x79b78e6a71fa8541ull, 0x79bd46efde13719eull, 0x79bd806173f062e1ull, 0x79bd806173f062e2ull, 0x79c031315c7cabcbull, 0x79c031315c7cabccull,
0x79c1b36dabf6a1baull, 0x79c1b36dabf6a1bbull, 0x79c76075fa16910aull, 0x79c76075fa16910bull, 0x79c90529a37b7e22ull, 0x79ca706bb70379f6ull, 0x79cd806173f062e1ull, 0x79cd806173f062e2ull,
0x79d90529a37b7e22ull, 0x79da706bb70379f6ull, 0x79dcb3c62e3a6adcull, 0x79dcb3c62e3a6addull, 0x79dd806173f062e1ull, 0x79dd806173f062e2ull, 0x79deeba387785eb5ull, 0x79deeba387785eb6ull,
0x79e450803d29a81full, 0x79e90529a37b7e22ull, 0x79ea706bb70379f6ull, 0x79ed806173f062e1ull, 0x79ed806173f062e2ull, 0x79ee9f9961411933ull, 0x79eeeba387785eb5ull, 0x79eeeba387785eb6ull,
0x79f2c3df3a9c9e99ull, 0x79f2c3df3a9c9e9aull, 0x79f3d450c9429b78ull, 0x79f3d450c9429b79ull, 0x79f450803d29a81full, 0x79f9780ccf3560a9ull, 0x79fd806173f062e1ull, 0x79fd806173f062e2ull,
0x79feeba387785eb5ull, 0x79feeba387785eb6ull, 0x7a029676f82b9f1full, 0x7a02c3df3a9c9e99ull, 0x7a02c3df3a9c9e9aull, 0x7a0450803d29a81full, 0x7a06e446862f8464ull, 0x7a08aa591e997f2dull,
0x7a0f46740c5a5daaull, 0x7a0f46740c5a5dabull, 0x7a12c3df3a9c9e99ull, 0x7a12c3df3a9c9e9aull, 0x7a159a6361ac9641ull, 0x7a159a6361ac9642ull, 0x7a16e446862f8464ull, 0x7a18aa591e997f2dull,
0x7a1c0f1ab6b26e29ull, 0x7a1f46740c5a5daaull, 0x7a1f46740c5a5dabull, 0x7a212b34e4a3a34bull, 0x7a25cdd04dd38ea0ull, 0x7a25cdd04dd38ea1ull, 0x7a29780ccf3560a9ull, 0x7a2b53750338775aull,
0x7a2b53750338775bull, 0x7a2f46740c5a5daaull, 0x7a2f46740c5a5dabull, 0x7a2fc2a380416a51ull, 0x7a312b34e4a3a34bull, 0x7a3a8a222d16f625ull, 0x7a3a8a222d16f626ull, 0x7a3c9d5827bb657dull,
0x7a3e2ffdd3fe67e7ull, 0x7a3f46740c5a5daaull, 0x7a3f46740c5a5dabull, 0x7a3fc2a380416a51ull, 0x7a47ad995c510599ull, 0x7a4a8a222d16f625ull, 0x7a4a8a222d16f626ull, 0x7a4c9d5827bb657dull,
0x7a4ce84b1cb8a9e8ull, 0x7a4e2ffdd3fe67e7ull, 0x7a4f46740c5a5daaull, 0x7a4f46740c5a5dabull, 0x7a5173f76c63b792ull, 0x7a5173f76c63b793ull, 0x7a57ad995c510599ull, 0x7a5a8a222d16f625ull,
0x7a5a8a222d16f626ull, 0x7a5b0ab27b786313ull, 0x7a5d66aafddce6b2ull, 0x7a5e2ffdd3fe67e7ull, 0x7a6330776d9fbc79ull, 0x7a6a8a222d16f625ull, 0x7a6a8a222d16f626ull, 0x7a6b0ab27b786313ull,
0x7a6d66aafddce6b2ull, 0x7a6dcb5468eda74cull, 0x7a6dcb5468eda74dull, 0x7a6ef950aa1fe91cull, 0x7a7330776d9fbc79ull, 0x7a760d003e65ad05ull, 0x7a760d003e65ad06ull, 0x7a7a8a222d16f625ull,
0x7a7a8a222d16f626ull, 0x7a7d020192cc2617ull, 0x7a7d020192cc2618ull, 0x7a7dcb5468eda74cull, 0x7a7dcb5468eda74dull, 0x7a7ef950aa1fe91cull, 0x7a8173f76c63b792ull, 0x7a8173f76c63b793ull,
0x7a860d003e65ad05ull, 0x7a860d003e65ad06ull, 0x7a873afc7f97eed5ull, 0x7a8913636424a00eull, 0x7a8913636424a00full, 0x7a89ec2a53a9aa29ull, 0x7a8d020192cc2617ull, 0x7a8d020192cc2618ull,
0x7a9173f76c63b792ull, 0x7a9173f76c63b793ull, 0x7a935bd26a53f1b1ull, 0x7a935bd26a53f1b2ull, 0x7a9543ad68442bd0ull, 0x7a9543ad68442bd1ull, 0x7a960d003e65ad05ull, 0x7a960d003e65ad06ull,
0x7a9ba96aa8c3486dull, 0x7a9ba96aa8c3486eull, 0x7a9d020192cc2617ull, 0x7a9d020192cc2618ull, 0x7aa07095d408119dull, 0x7aa07095d408119eull, 0x7aa1818ab41d410dull, 0x7aa35bd26a53f1b1ull,
0x7aa35bd26a53f1b2ull, 0x7aa44fbfe94c0ec1ull, 0x7aa543ad68442bd0ull, 0x7aa543ad68442bd1ull, 0x7aaba96aa8c3486dull, 0x7aaba96aa8c3486eull, 0x7ab1818ab41d410dull, 0x7ab44fbfe94c0ec1ull,
0x7ab543ad68442bd0ull, 0x7ab543ad68442bd1ull, 0x7aba9875c8ae18feull, 0x7abba96aa8c3486dull, 0x7abba96aa8c3486eull, 0x7ac173f76c63b792ull, 0x7ac173f76c63b793ull, 0x7ac44fbfe94c0ec1ull,
0x7ac6379ae73c48e0ull, 0x7ac7741ad8fd13dfull, 0x7ac7741ad8fd13e0ull, 0x7acf6b8d5cea3331ull, 0x7ad44fbfe94c0ec1ull, 0x7ad6379ae73c48e0ull, 0x7ad9dda6a31b20f9ull, 0x7adaf5dd5b779500ull,
0x7adaf5dd5b779501ull, 0x7adc8fc4e001dc02ull, 0x7adc8fc4e001dc03ull, 0x7ae0a9b42d6d36a8ull, 0x7ae28edea80ece30ull, 0x7ae28edea80ece31ull, 0x7ae44fbfe94c0ec1ull, 0x7ae716b3463397ddull,
0x7aeaf5dd5b779500ull, 0x7aeaf5dd5b779501ull, 0x7aec8fc4e001dc02ull, 0x7aec8fc4e001dc03ull, 0x7af0a9b42d6d36a8ull, 0x7af44fbfe94c0ec1ull, 0x7afa2aeb220ccd74ull, 0x7afa2aeb220ccd75ull,
0x7aff56b83ce9651eull, 0x7aff56b83ce9651full, 0x7affdb198c65daafull, 0x7affdb198c65dab0ull, 0x7b00a9b42d6d36a8ull, 0x7b044fbfe94c0ec1ull, 0x7b0763f7c5254458ull, 0x7b0763f7c5254459ull,
0x7b0f295cb52bf868ull, 0x7b0f295cb52bf869ull, 0x7b0f56b83ce9651eull, 0x7b0f56b83ce9651full, 0x7b10a9b42d6d36a8ull, 0x7b14a89e54e8ffe4ull, 0x7b14a89e54e8ffe5ull, 0x7b1763f7c5254458ull,
0x7b1763f7c5254459ull, 0x7b1ea4fb65af82d7ull, 0x7b1ea4fb65af82d8ull, 0x7b1f295cb52bf868ull, 0x7b1f295cb52bf869ull, 0x7b2050d5c1d04584ull, 0x7b2050d5c1d04585ull, 0x7b20a9b42d6d36a8ull,
0x7b20f99dc92b0dcaull, 0x7b20f99dc92b0dcbull, 0x7b2763f7c5254458ull, 0x7b2763f7c5254459ull, 0x7b2faf96a8865642ull, 0x7b3047e0f1f12b83ull, 0x7b3047e0f1f12b84ull, 0x7b3050d5c1d04584ull,
0x7b3050d5c1d04585ull, 0x7b30a9b42d6d36a8ull, 0x7b370b1959885335ull, 0x7b39901f196d8b03ull, 0x7b39e8fd850a7c26ull, 0x7b39e8fd850a7c27ull, 0x7b4047e0f1f12b83ull, 0x7b4047e0f1f12b84ull,
0x7b4050d5c1d04584ull, 0x7b4050d5c1d04585ull, 0x7b49901f196d8b03ull, 0x7b49e8fd850a7c26ull, 0x7b49e8fd850a7c27ull, 0x7b4c881f45ce5166ull, 0x7b5050d5c1d04584ull, 0x7b5050d5c1d04585ull,
0x7b53588688e0a0d4ull, 0x7b59e8fd850a7c26ull, 0x7b59e8fd850a7c27ull, 0x7b5d7d5f532c83c9ull, 0x7b5f46a23bf1507eull, 0x7b5f46a23bf1507full, 0x7b6050d5c1d04584ull, 0x7b6050d5c1d04585ull,
0x7b6156f69cb78beeull, 0x7b6156f69cb78befull, 0x7b615b7104a718efull, 0x7b6cfa4ee5b8e094ull, 0x7b6fc7b7a9fa7532ull, 0x7b703cba409a2bbcull, 0x7b703cba409a2bbdull, 0x7b7050d5c1d04584ull,
0x7b7050d5c1d04585ull, 0x7b715b7104a718efull, 0x7b7ae518600b39bfull, 0x7b7c5fe843621dd6ull, 0x7b7fc7b7a9fa7532ull, 0x7b803cba409a2bbcull, 0x7b803cba409a2bbdull, 0x7b8050d5c1d04584ull,
0x7b8050d5c1d04585ull, 0x7b815b7104a718efull, 0x7b882ea82b18c909ull, 0x7b8ecdfd34acb5ceull, 0x7b8ecdfd34acb5cfull, 0x7b8fe44391f518fdull, 0x7b8fe44391f518feull, 0x7b9050d5c1d04584ull,
0x7b9050d5c1d04585ull, 0x7b915b7104a718efull, 0x7b9b554d008b4a6bull, 0x7b9b554d008b4a6cull, 0x7b9fbda9e95f684eull, 0x7b9fe44391f518fdull, 0x7b9fe44391f518feull, 0x7ba15b7104a718efull,
0x7ba40942000b01d1ull, 0x7ba462206ba7f2f4ull, 0x7ba462206ba7f2f5ull, 0x7baaaf3b43c2f7e9ull, 0x7baeb30ea68894e3ull, 0x7baeb30ea68894e4ull, 0x7bb15b7104a718efull, 0x7bb3b063946e10adull,
0x7bb3b063946e10aeull, 0x7bb40942000b01d1ull, 0x7bb56cbbae7ec65full, 0x7bbe66c16bad73ddull, 0x7bbeb30ea68894e3ull, 0x7bbeb30ea68894e4ull, 0x7bc3b063946e10adull, 0x7bc3b063946e10aeull,
0x7bcaaf3b43c2f7e9ull, 0x7bcc5e1c16c19d25ull, 0x7bce0cfce9c04261ull, 0x7bce66c16bad73ddull, 0x7bd3b063946e10adull, 0x7bd3b063946e10aeull, 0x7bdaaf3b43c2f7e9ull, 0x7bdc5e1c16c19d25ull,
0x7bde66c16bad73ddull, 0x7be0efb8cfe76fa0ull, 0x7be171e22522654eull, 0x7be3b063946e10adull, 0x7be3b063946e10aeull, 0x7beb86abad424a87ull, 0x7bec5e1c16c19d25ull, 0x7bee66c16bad73ddull,
0x7bf3b063946e10adull, 0x7bf3b063946e10aeull, 0x7bf7ec51c867ec95ull, 0x7bf7ec51c867ec96ull, 0x7bfbf263e201f3d6ull, 0x7bfc283ffc61c87dull, 0x7bfc283ffc61c87eull, 0x7bfc5e1c16c19d25ull,
0x7bfe66c16bad73ddull, 0x7c0069100932cb09ull, 0x7c07ec51c867ec95ull, 0x7c07ec51c867ec96ull, 0x7c0bf263e201f3d6ull, 0x7c0c283ffc61c87dull, 0x7c0c283ffc61c87eull, 0x7c0fc95b0f438729ull,
0x7c0fc95b0f43872aull, 0x7c103333eed2f661ull, 0x7c103333eed2f662ull, 0x7c14f5cae98176e0ull, 0x7c14f5cae98176e1ull, 0x7c17ec51c867ec95ull, 0x7c17ec51c867ec96ull, 0x7c1a0a48e264da89ull,
0x7c1a0a48e264da8aull, 0x7c1c283ffc61c87dull, 0x7c1c283ffc61c87eull, 0x7c1f937ef4e3b282ull, 0x7c203333eed2f661ull, 0x7c203333eed2f662ull, 0x7c21926c7a7122b9ull, 0x7c21926c7a7122baull,
0x7c27ec51c867ec95ull, 0x7c27ec51c867ec96ull, 0x7c28fb4d5566638full, 0x7c28fb4d55666390ull, 0x7c2c283ffc61c87dull, 0x7c2c283ffc61c87eull, 0x7c2ffcf36944cfa2ull, 0x7c2ffcf36944cfa3ull,
0x7c30d4c83df27458ull, 0x7c31926c7a7122b9ull, 0x7c31926c7a7122baull, 0x7c31c84894d0f761ull, 0x7c36dd563b69759bull, 0x7c36dd563b69759cull, 0x7c3c283ffc61c87dull, 0x7c3c283ffc61c87eull,
0x7c3f5b5f1a2551acull, 0x7c40bafc10f1d01bull, 0x7c40bafc10f1d01cull, 0x7c41926c7a7122b9ull, 0x7c41926c7a7122baull, 0x7c41c84894d0f761ull, 0x7c46dd563b69759bull, 0x7c46dd563b69759cull,
0x7c4982cb1be59f0cull, 0x7c4982cb1be59f0dull, 0x7c4a7690c4d99e6aull, 0x7c51926c7a7122b9ull, 0x7c51926c7a7122baull, 0x7c51c84894d0f761ull, 0x7c583010aba78a54ull, 0x7c5982cb1be59f0cull,
0x7c5982cb1be59f0dull, 0x7c599f205b5a4bccull, 0x7c5ecdb4dcddf1eeull, 0x7c5ecdb4dcddf1efull, 0x7c60bafc10f1d01bull, 0x7c60bafc10f1d01cull, 0x7c61c84894d0f761ull, 0x7c683010aba78a54ull,
0x7c6bb9b963189a57ull, 0x7c6e97d8c27e1d47ull, 0x7c6ecdb4dcddf1eeull, 0x7c6ecdb4dcddf1efull, 0x7c71c84894d0f761ull, 0x7c72b5ac870a2cc4ull, 0x7c72b5ac870a2cc5ull, 0x7c783010aba78a54ull,
0x7c7bb9b963189a57ull, 0x7c7e97d8c27e1d47ull, 0x7c82240c80bda7bfull, 0x7c82b5ac870a2cc4ull, 0x7c82b5ac870a2cc5ull, 0x7c84fc2ca03c40daull, 0x7c84fc2ca03c40dbull, 0x7c883010aba78a54ull,
0x7c8d28c912cb5bcfull, 0x7c8e97d8c27e1d47ull, 0x7c92240c80bda7bfull, 0x7c92b5ac870a2cc4ull, 0x7c92b5ac870a2cc5ull, 0x7c9b0830cb26236full, 0x7c9b0830cb262370ull, 0x7c9de050eaa4bc8bull,
0x7c9e97d8c27e1d47ull, 0x7ca2240c80bda7bfull, 0x7ca22a0bc0a49193ull, 0x7ca22a0bc0a49194ull, 0x7cab0830cb26236full, 0x7cab0830cb262370ull, 0x7cad28c912cb5bcfull, 0x7cade050eaa4bc8bull,
0x7cae3c14d6916ce9ull, 0x7cb20d1b85c27ba7ull, 0x7cb20d1b85c27ba8ull, 0x7cb2240c80bda7bfull, 0x7cbd28c912cb5bcfull, 0x7cbe0e32e09b14baull, 0x7cbe3c14d6916ce9ull, 0x7cbef39cae6acda5ull,
0x7cc09592f885990eull, 0x7cc2240c80bda7bfull, 0x7cce0e32e09b14baull, 0x7cce2523db9640d1ull, 0x7cce2523db9640d2ull, 0x7cce3c14d6916ce9ull, 0x7ccef39cae6acda5ull, 0x7cd6a197236f7ba3ull,
0x7cda788ba95c310eull, 0x7cde0e32e09b14baull, 0x7cde3c14d6916ce9ull, 0x7cde80e7c782f12full, 0x7cde80e7c782f130ull, 0x7cdef39cae6acda5ull, 0x7ce68aa628744f8bull, 0x7ce68aa628744f8cull,
0x7cea6ed5fd007446ull, 0x7cecb6142be37f59ull, 0x7cecb6142be37f5aull, 0x7cee3c14d6916ce9ull, 0x7cee80e7c782f12full, 0x7cee80e7c782f130ull, 0x7ceef39cae6acda5ull, 0x7cf617f1418c7316ull,
0x7cf68aa628744f8bull, 0x7cf68aa628744f8cull, 0x7cfa85c6f7fba05dull, 0x7cfa85c6f7fba05eull, 0x7cfc557569c8f097ull, 0x7cfc557569c8f098ull, 0x7cfe3c14d6916ce9ull, 0x7cfef39cae6acda5ull,
0x7d0104a9d81132c6ull, 0x7d0617f1418c7316ull, 0x7d063267decb51b5ull, 0x7d0888369037f7f4ull, 0x7d0888369037f7f5ull, 0x7d0a85c6f7fba05dull, 0x7d0a85c6f7fba05eull, 0x7d1091f4f1295650ull,
0x7d1091f4f1295651ull, 0x7d1104a9d81132c6ull, 0x7d1617f1418c7316ull, 0x7d16252c902be265ull, 0x7d16252c902be266ull, 0x7d1888369037f7f4ull, 0x7d1888369037f7f5ull, 0x7d1a85c6f7fba05dull,
0x7d1a85c6f7fba05eull, 0x7d2005e1a42f5e91ull, 0x7d2005e1a42f5e92ull, 0x7d2091f4f1295650ull, 0x7d2091f4f1295651ull, 0x7d2104a9d81132c6ull, 0x7d2a85c6f7fba05dull, 0x7d2a85c6f7fba05eull,
0x7d2bab28e08eff2bull, 0x7d2cc961063c44a6ull, 0x7d3005e1a42f5e91ull, 0x7d3005e1a42f5e92ull, 0x7d3091f4f1295650ull, 0x7d3091f4f1295651ull, 0x7d3545d44e157f77ull, 0x7d3545d44e157f78ull,
0x7d3b9ded91ef8fdbull, 0x7d3b9ded91ef8fdcull, 0x7d3bab28e08eff2bull, 0x7d3e67896170d5e6ull, 0x7d4091f4f1295650ull, 0x7d4091f4f1295651ull, 0x7d42a5daf9226f04ull, 0x7d42a5daf9226f05ull,
0x7d4545d44e157f77ull, 0x7d4545d44e157f78ull, 0x7d4b9ded91ef8fdbull, 0x7d4b9ded91ef8fdcull, 0x7d4bab28e08eff2bull, 0x7d4fc5b9a1e1c143ull, 0x7d4fc5b9a1e1c144ull, 0x7d52a5daf9226f04ull,
0x7d52a5daf9226f05ull, 0x7d53f5d7a39bf73eull, 0x7d54b9c1011b87b8ull, 0x7d54b9c1011b87b9ull, 0x7d5b9ded91ef8fdbull, 0x7d5b9ded91ef8fdcull, 0x7d5fc5b9a1e1c143ull, 0x7d5fc5b9a1e1c144ull,
0x7d62a5daf9226f04ull, 0x7d62a5daf9226f05ull, 0x7d63f5d7a39bf73eull, 0x7d64b9c1011b87b8ull, 0x7d64b9c1011b87b9ull, 0x7d682bd749858bcaull, 0x7d6935ca4d821824ull, 0x7d6ca0c6caf06aa3ull,
0x7d6ca0c6caf06aa4ull, 0x7d72a5daf9226f04ull, 0x7d72a5daf9226f05ull, 0x7d74b9c1011b87b8ull, 0x7d74b9c1011b87b9ull, 0x7d782bd749858bcaull, 0x7d7f1d3f28f9033cull, 0x7d7f1d3f28f9033dull,
0x7d7f40c01fe37b16ull, 0x7d7f40c01fe37b17ull, 0x7d8220e1772428d7ull, 0x7d8220e1772428d8ull, 0x7d82a5daf9226f04ull, 0x7d82a5daf9226f05ull, 0x7d882bd749858bcaull, 0x7d88f34d8c82f50dull,
0x7d88f34d8c82f50eull, 0x7d8ac4b6d37ceaabull, 0x7d8f1d3f28f9033cull, 0x7d8f1d3f28f9033dull, 0x7d9220e1772428d7ull, 0x7d9220e1772428d8ull, 0x7d95cc9442d2b209ull, 0x7d98f34d8c82f50dull,
0x7d98f34d8c82f50eull, 0x7d9912495697a04aull, 0x7d9f833ce0e29e2dull, 0x7da220e1772428d7ull, 0x7da220e1772428d8ull, 0x7da4d4379e5a6657ull, 0x7da4d4379e5a6658ull, 0x7da5cc9442d2b209ull,
0x7da89f10500e960aull, 0x7dae36cd1be6eebcull, 0x7dae36cd1be6eebdull, 0x7daf833ce0e29e2dull, 0x7db220e1772428d7ull, 0x7db220e1772428d8ull, 0x7db2941a7dad3317ull, 0x7db2941a7dad3318ull,
0x7db5cc9442d2b209ull, 0x7dbaa7e891daa81bull, 0x7dbe36cd1be6eebcull, 0x7dbe36cd1be6eebdull, 0x7dbe70699f2b73dcull, 0x7dbe70699f2b73ddull, 0x7dc220e1772428d7ull, 0x7dc220e1772428d8ull,
0x7dc5cc9442d2b209ull, 0x7dc83a3e6a56ad12ull, 0x7dc86573ccca10eaull, 0x7dce36cd1be6eebcull, 0x7dce36cd1be6eebdull, 0x7dce539b5d89314cull, 0x7dce539b5d89314dull, 0x7dd1740bed569977ull,
0x7dd1740bed569978ull, 0x7dd83a3e6a56ad12ull, 0x7dd86573ccca10eaull, 0x7ddce5ae0e24776aull, 0x7dde36cd1be6eebcull, 0x7dde36cd1be6eebdull, 0x7dde45343cb81004ull, 0x7dde45343cb81005ull,
0x7de1740bed569977ull, 0x7de1740bed569978ull, 0x7de24c16d9978cafull, 0x7de24c16d9978cb0ull, 0x7de83a3e6a56ad12ull, 0x7dee36cd1be6eebcull, 0x7dee36cd1be6eebdull, 0x7dee45343cb81004ull,
0x7dee45343cb81005ull, 0x7defe6e2f468d52cull, 0x7defe6e2f468d52dull, 0x7df1740bed569977ull, 0x7df1740bed569978ull, 0x7df22815078cb97bull, 0x7df22815078cb97cull, 0x7df22baecfc101cdull,
0x7df22baecfc101ceull, 0x7df84171fabf3db6ull, 0x7dfe45343cb81004ull, 0x7dfe45343cb81005ull, 0x7dfe7ed0bffc9524ull, 0x7dfe7ed0bffc9525ull, 0x7e022815078cb97bull, 0x7e022815078cb97cull,
0x7e022baecfc101cdull, 0x7e022baecfc101ceull, 0x7e0e470120d2342dull, 0x7e0e470120d2342eull, 0x7e0e48ce04ec5856ull, 0x7e0e48ce04ec5857ull, 0x7e0e7ed0bffc9524ull, 0x7e0e7ed0bffc9525ull,
0x7e122815078cb97bull, 0x7e122815078cb97cull, 0x7e1390273bf8f983ull, 0x7e1390273bf8f984ull, 0x7e183871863c88e9ull, 0x7e185372e3c4a750ull, 0x7e1d16be8b90551cull, 0x7e1d16be8b90551dull,
0x7e1e48ce04ec5856ull, 0x7e1e48ce04ec5857ull, 0x7e21ce107a71a979ull, 0x7e21ce107a71a97aull, 0x7e222815078cb97bull, 0x7e222815078cb97cull, 0x7e283871863c88e9ull, 0x7e285372e3c4a750ull,
0x7e2e48ce04ec5856ull, 0x7e2e48ce04ec5857ull, 0x7e2e51ce796f0d23ull, 0x7e2e51ce796f0d24ull, 0x7e322815078cb97bull, 0x7e322815078cb97cull, 0x7e35328364054e65ull, 0x7e35328364054e66ull,
0x7e383871863c88e9ull, 0x7e383cf1c07de34full, 0x7e383cf1c07de350ull, 0x7e385372e3c4a750ull, 0x7e3df7c9ec53fd21ull, 0x7e3df7c9ec53fd22ull, 0x7e422815078cb97bull, 0x7e422815078cb97cull,
0x7e423e962ad37d7cull, 0x7e4390273bf8f983ull, 0x7e4390273bf8f984ull, 0x7e45328364054e65ull, 0x7e45328364054e66ull, 0x7e4c35b32accad17ull, 0x7e4c35b32accad18ull, 0x7e4df7c9ec53fd21ull,
0x7e4df7c9ec53fd22ull, 0x7e523e962ad37d7cull, 0x7e53ad4c35c903f0ull, 0x7e53ad4c35c903f1ull, 0x7e55328364054e65ull, 0x7e55328364054e66ull, 0x7e57e2ed3362d34dull, 0x7e57e2ed3362d34eull,
0x7e5df7c9ec53fd21ull, 0x7e5df7c9ec53fd22ull, 0x7e5e684f9cb5d124ull, 0x7e60b95efc973307ull, 0x7e646fe7cce7292bull, 0x7e65328364054e65ull, 0x7e65328364054e66ull, 0x7e67e2ed3362d34dull,
0x7e67e2ed3362d34eull, 0x7e6df7c9ec53fd21ull, 0x7e6df7c9ec53fd22ull, 0x7e6e684f9cb5d124ull, 0x7e70b95efc973307ull, 0x7e7390273bf8f983ull, 0x7e7390273bf8f984ull, 0x7e76ce3bb5885cdbull,
0x7e7df7c9ec53fd21ull, 0x7e7df7c9ec53fd22ull, 0x7e7e5f16268199fcull, 0x7e7e5f16268199fdull, 0x7e7f7d011a904796ull, 0x7e7f7d011a904797ull, 0x7e80b95efc973307ull, 0x7e830131c1f1a2b6ull,
0x7e830131c1f1a2b7ull, 0x7e8390273bf8f983ull, 0x7e8390273bf8f984ull, 0x7e8f53f627321efaull, 0x7e8f53f627321efbull, 0x7e8f7d011a904796ull, 0x7e8f7d011a904797ull, 0x7e930131c1f1a2b6ull,
0x7e930131c1f1a2b7ull, 0x7e992a93f491e0d8ull, 0x7e992a93f491e0d9ull, 0x7e99ed2f8bb00613ull, 0x7e9d0c2361d7af4bull, 0x7e9f7d011a904796ull, 0x7e9f7d011a904797ull, 0x7ea30131c1f1a2b6ull,
0x7ea30131c1f1a2b7ull, 0x7ea6202598194beeull, 0x7ea6202598194befull, 0x7ea92a93f491e0d8ull, 0x7ea92a93f491e0d9ull, 0x7ea93f196e40f526ull, 0x7ea93f196e40f527ull, 0x7ea9ed2f8bb00613ull,
0x7eb30131c1f1a2b6ull, 0x7eb30131c1f1a2b7ull, 0x7eb6202598194beeull, 0x7eb6202598194befull, 0x7eb9ed2f8bb00613ull, 0x7ebf7d011a904796ull, 0x7ebf7d011a904797ull, 0x7ebfc47bd793f2fdull,
0x7ec490abad057752ull, 0x7ec490abad057753ull, 0x7ec6202598194beeull, 0x7ec6202598194befull, 0x7ec9ed2f8bb00613ull, 0x7ece81f674d0aa85ull, 0x7ece81f674d0aa86ull, 0x7ecf7d011a904796ull,
0x7ecf7d011a904797ull, 0x7ecfc47bd793f2fdull, 0x7ed55868a28f61a0ull, 0x7ed55868a28f61a1ull, 0x7ed5bc471d5456c7ull, 0x7ed5bc471d5456c8ull, 0x7ed6202598194beeull, 0x7ed6202598194befull,
0x7ed7af9f832d208aull, 0x7ed7af9f832d208bull, 0x7ed9ed2f8bb00613ull, 0x7edfc47bd793f2fdull, 0x7ee031ced2d4d539ull, 0x7ee3c8eeb77b8d04ull, 0x7ee3c8eeb77b8d05ull, 0x7ee55868a28f61a0ull,
0x7ee55868a28f61a1ull, 0x7ee5bc471d5456c7ull, 0x7ee5bc471d5456c8ull, 0x7ee7af9f832d208aull, 0x7ee7af9f832d208bull, 0x7eefc070c2905ad3ull, 0x7ef38173fa77e19eull, 0x7ef3c8eeb77b8d04ull,
0x7ef3c8eeb77b8d05ull, 0x7ef58a57dff1dc34ull, 0x7ef5bc471d5456c7ull, 0x7ef5bc471d5456c8ull, 0x7f03c8eeb77b8d04ull, 0x7f03c8eeb77b8d05ull, 0x7f04c29aea67f1e6ull, 0x7f058a57dff1dc34ull,
0x7f05bc471d5456c7ull, 0x7f05bc471d5456c8ull, 0x7f0d89a8b4b77dd3ull, 0x7f0d89a8b4b77dd4ull, 0x7f1031ced2d4d539ull, 0x7f13c8eeb77b8d04ull, 0x7f13c8eeb77b8d05ull, 0x7f14c29aea67f1e6ull,
0x7f15bc471d5456c7ull, 0x7f15bc471d5456c8ull, 0x7f18a94bb619856cull, 0x7f1f73e82b483138ull, 0x7f23c8eeb77b8d04ull, 0x7f23c8eeb77b8d05ull, 0x7f25bc471d5456c7ull, 0x7f25bc471d5456c8ull,
0x7f28a94bb619856cull, 0x7f28f0c6731d30d2ull, 0x7f28f0c6731d30d3ull, 0x7f2aecedd7ee5341ull, 0x7f327ef8c8932411ull, 0x7f35bc471d5456c7ull, 0x7f35bc471d5456c8ull, 0x7f38a94bb619856cull,
0x7f38f0c6731d30d2ull, 0x7f38f0c6731d30d3ull, 0x7f39f341a501ee5full, 0x7f39f341a501ee60ull, 0x7f3aecedd7ee5341ull, 0x7f41995f04a5c034ull, 0x7f427ef8c8932411ull, 0x7f48f0c6731d30d2ull,
0x7f48f0c6731d30d3ull, 0x7f4d086b1bc51f0dull, 0x7f4f0fd5f09ce9d4ull, 0x7f4f0fd5f09ce9d5ull, 0x7f51995f04a5c034ull, 0x7f527ef8c8932411ull, 0x7f58f0c6731d30d2ull, 0x7f58f0c6731d30d3ull,
0x7f5d086b1bc51f0dull, 0x7f5ed39ea39fe6c7ull, 0x7f5f1b1960a3922dull, 0x7f5f1b1960a3922eull, 0x7f61995f04a5c034ull, 0x7f627ef8c8932411ull, 0x7f6750e510356fa0ull, 0x7f6750e510356fa1ull,
0x7f6d6cc746c02423ull, 0x7f6d6cc746c02424ull, 0x7f6ed39ea39fe6c7ull, 0x7f6f1b1960a3922dull, 0x7f6f1b1960a3922eull, 0x7f71995f04a5c034ull, 0x7f727ef8c8932411ull, 0x7f7742745939c2c8ull,
0x7f7742745939c2c9ull, 0x7f7bb73cd15edfadull, 0x7f7bb73cd15edfaeull, 0x7f7ed39ea39fe6c7ull, 0x7f7faac7b0919dccull, 0x7f82ea8d4f0bff93ull, 0x7f82ea8d4f0bff94ull, 0x7f835621d584db16ull,
0x7f85ffb6c5cf3041ull, 0x7f86faf99c361762ull, 0x7f8ed39ea39fe6c7ull, 0x7f8f1b1960a3922dull, 0x7f8f1b1960a3922eull, 0x7f935621d584db16ull, 0x7f95ffb6c5cf3041ull, 0x7f96faf99c361762ull,
0x7f9914e03c9260eeull, 0x7f9914e03c9260efull, 0x7f9dea68b1f397b4ull, 0x7f9f1b1960a3922dull, 0x7f9f1b1960a3922eull, 0x7fa13c3b35289189ull, 0x7fa13c3b3528918aull, 0x7fa5ffb6c5cf3041ull,
0x7fa914e03c9260eeull, 0x7fa914e03c9260efull, 0x7fa9f50fbbe163faull, 0x7fa9f50fbbe163fbull, 0x7fadea68b1f397b4ull, 0x7faf1b1960a3922dull, 0x7faf1b1960a3922eull, 0x7fb13c3b35289189ull,
0x7fb13c3b3528918aull, 0x7fb1a5a539ed4e97ull, 0x7fb1a5a539ed4e98ull, 0x7fb914e03c9260eeull, 0x7fb914e03c9260efull, 0x7fbdea68b1f397b4ull, 0x7fc13c3b35289189ull, 0x7fc13c3b3528918aull,
0x7fc4b3f2c00751b2ull, 0x7fc4b3f2c00751b3ull, 0x7fc66fce8576b1c7ull, 0x7fc72fae9e9875e9ull, 0x7fc914e03c9260eeull, 0x7fc914e03c9260efull, 0x7fcdea68b1f397b4ull, 0x7fd13c3b35289189ull,
0x7fd13c3b3528918aull, 0x7fd2b2816f383ed0ull, 0x7fd2b2816f383ed1ull, 0x7fd66fce8576b1c7ull, 0x7fdc2e8cec84379full, 0x7fdc2e8cec8437a0ull, 0x7fdcd22d52d0d3e5ull, 0x7fdcd4128474cc7eull,
0x7fe13c3b35289189ull, 0x7fe13c3b3528918aull, 0x7fe2b2816f383ed0ull, 0x7fe2b2816f383ed1ull, 0x7fed5e4b026235ccull, 0x7fed5e4b026235cdull, 0x7fefa6447762f7c8ull, 0x7fefa6447762f7c9ull,
0x7fefebda02c2aa96ull,
};
static const uint32_t FLOATS[] = {
0x43bc32ull, 0x6d4109ull, 0x6d410aull, 0xbd5da3ull, 0xbd5da4ull, 0xd90b88ull, 0xd90b89ull, 0xdfd18dull,
0xdfd18eull, 0x1154f56ull, 0x1154f57ull, 0x13d5da3ull, 0x13d5da4ull, 0x1590b88ull, 0x1590b89ull, 0x15c6e8bull,
0x17ae9a1ull, 0x17ae9a2ull, 0x1954f56ull, 0x1954f57ull, 0x1a9567dull, 0x1d90b88ull, 0x1d90b89ull, 0x1dc6e8bull,
0x1e9fa95ull, 0x2154f56ull, 0x2154f57ull, 0x223a167ull, 0x2590b88ull, 0x2590b89ull, 0x25c6e8bull, 0x269fa95ull,
0x285d6d4ull, 0x285d6d5ull, 0x2954f56ull, 0x2954f57ull, 0x2a70469ull, 0x2a7046aull, 0x2d90b88ull, 0x2d90b89ull,
0x2e9fa95ull, 0x3219a3cull, 0x34007f9ull, 0x3590b88ull, 0x3590b89ull, 0x369fa95ull, 0x37a239bull, 0x3c007f9ull,
0x3c5ca68ull, 0x3c5ca69ull, 0x3d90b88ull, 0x3d90b89ull, 0x3e9fa95ull, 0x3f20f18ull, 0x410c0b2ull, 0x41d63d9ull,
0x41d63daull, 0x45f10b7ull, 0x45f10b8ull, 0x469fa95ull, 0x46e04d6ull, 0x46e04d7ull, 0x4720f18ull, 0x490c0b2ull,
0x4b58b52ull, 0x4e9fa95ull, 0x4ee04d6ull, 0x4ee04d7ull, 0x4ee30f7ull, 0x4ee30f8ull, 0x4fe2ddcull, 0x4fe2dddull,
0x5093092ull, 0x517496full, 0x52d60beull, 0x52d60bfull, 0x5399593ull, 0x5399594ull, 0x569fa95ull, 0x56e04d6ull,
0x56e04d7ull, 0x5893092ull, 0x597496full, 0x5d190ebull, 0x5e9fa95ull, 0x5ee30f7ull, 0x5ee30f8ull, 0x5f1f907ull,
0x5f1f908ull, 0x6093092ull, 0x617496full, 0x640a202ull, 0x65190ebull, 0x66e30f7ull, 0x66e30f8ull, 0x671f907ull,
0x671f908ull, 0x6893092ull, 0x6ab7cb6ull, 0x6ab7cb7ull, 0x6abf5b8ull, 0x6abf5b9ull, 0x6d190ebull, 0x6f10703ull,
0x6f10704ull, 0x6f79a70ull, 0x70a2296ull, 0x72b7cb6ull, 0x72b7cb7ull, 0x72bf5b8ull, 0x72bf5b9ull, 0x74e41ddull,
0x7779a70ull, 0x78a2296ull, 0x7a6c2a2ull, 0x7a6c2a3ull, 0x7abf5b8ull, 0x7abf5b9ull, 0x7ce41ddull, 0x7d190ebull,
0x7f08e01ull, 0x7f08e02ull, 0x8098b53ull, 0x8098b54ull, 0x80a2296ull, 0x82bf5b8ull, 0x82bf5b9ull, 0x85190ebull,
0x8708e01ull, 0x8708e02ull, 0x8898b53ull, 0x8898b54ull, 0x89ac086ull, 0x8abf5b8ull, 0x8abf5b9ull, 0x8ac13f9ull,
0x8acab3bull, 0x8acab3cull, 0x8f08e01ull, 0x8f08e02ull, 0x9098b53ull, 0x9098b54ull, 0x94e9c9eull, 0x94e9c9full,
0x95190ebull, 0x95f9550ull, 0x96aa568ull, 0x96aa569ull, 0x9708e01ull, 0x9708e02ull, 0x9898b53ull, 0x9898b54ull,
0x9a9b6efull, 0x9d190ebull, 0x9df9550ull, 0x9f08e01ull, 0x9f08e02ull, 0x9f955fbull, 0x9f955fcull, 0xa29b6efull,
0xa3da3edull, 0xa4170a7ull, 0xa4170a8ull, 0xa5f9550ull, 0xa708e01ull, 0xa708e02ull, 0xa7955fbull, 0xa7955fcull,
0xaa7affcull, 0xab3ad6eull, 0xabda3edull, 0xaeaa568ull, 0xaeaa569ull, 0xaf08e01ull, 0xaf08e02ull, 0xb0bbd52ull,
0xb38a8adull, 0xb38a8aeull, 0xb3da3edull, 0xb6aa568ull, 0xb6aa569ull, 0xb708e01ull, 0xb708e02ull, 0xb8bbd52ull,
0xba4bbafull, 0xba4bbb0ull, 0xbb8a8adull, 0xbb8a8aeull, 0xbbda3edull, 0xbf08e01ull, 0xbf08e02ull, 0xc04c0a7ull,
0xc04c0a8ull, 0xc0bbd52ull, 0xc3da3edull, 0xc6098c9ull, 0xc6098caull, 0xc699157ull, 0xc7e8756ull, 0xc7e8757ull,
0xc8bbd52ull, 0xc8bd372ull, 0xcbda3edull, 0xce567c9ull, 0xcfe8756ull, 0xcfe8757ull, 0xd0bbd52ull, 0xd2eaca6ull,
0xd2eaca7ull, 0xd5b927aull, 0xd798953ull, 0xd7e8756ull, 0xd7e8757ull, 0xd8bbd52ull, 0xdaeaca6ull, 0xdaeaca7ull,
0xdd699feull, 0xdd699ffull, 0xddb927aull, 0xde592a7ull, 0xdfe8756ull, 0xdfe8757ull, 0xe10be19ull, 0xe10be1aull,
0xe24addbull, 0xe24addcull, 0xe2eaca6ull, 0xe2eaca7ull, 0xe42a352ull, 0xe42a353ull, 0xe6567c9ull, 0xe7e8756ull,
0xe7e8757ull, 0xe81b8ffull, 0xe90be19ull, 0xe90be1aull, 0xe9ab5faull, 0xe9ab5fbull, 0xeb8a7fcull, 0xeb8a7fdull,
0xec2a352ull, 0xec2a353ull, 0xefe8756ull, 0xefe8757ull, 0xf10be19ull, 0xf10be1aull, 0xf1ab5faull, 0xf1ab5fbull,
0xf3da5a7ull, 0xf3da5a8ull, 0xf42a352ull, 0xf42a353ull, 0xf4c9ea8ull, 0xf4c9ea9ull, 0xf519a99ull, 0xf9fc334ull,
0xfb3aa51ull, 0xfb3aa52ull, 0xfcc9ea8ull, 0xfcc9ea9ull, 0xfd19a99ull, 0xff46ce3ull, 0xff46ce4ull, 0xff98b66ull,
0x101fc334ull, 0x1033aa51ull, 0x1033aa52ull, 0x1040247dull, 0x10519a99ull, 0x106592ffull, 0x10659300ull, 0x10746ce3ull,
0x10746ce4ull, 0x108bcacdull, 0x108bcaceull, 0x10a73026ull, 0x10b3aa51ull, 0x10b3aa52ull, 0x10c0247dull, 0x10e592ffull,
0x10e59300ull, 0x10f46ce3ull, 0x10f46ce4ull, 0x110bcacdull, 0x110bcaceull, 0x11273026ull, 0x1147b401ull, 0x114c7c16ull,
0x114c7c17ull, 0x116592ffull, 0x11659300ull, 0x117c050cull, 0x1191faecull, 0x1191faedull, 0x11a73026ull, 0x11c7b401ull,
0x11e592ffull, 0x11e59300ull, 0x11fc050cull, 0x1211faecull, 0x1211faedull, 0x12273026ull, 0x1250fc2full, 0x1250fc30ull,
0x125b4797ull, 0x125b4798ull, 0x1261dc86ull, 0x1261dc87ull, 0x127c050cull, 0x128289d0ull, 0x128289d1ull, 0x12b17b8eull,
0x12bd03c9ull, 0x12d0fc2full, 0x12d0fc30ull, 0x12db4797ull, 0x12db4798ull, 0x12e1dc86ull, 0x12e1dc87ull, 0x131362f6ull,
0x131d8327ull, 0x131d8328ull, 0x13317b8eull, 0x1350fc2full, 0x1350fc30ull, 0x1361dc86ull, 0x1361dc87ull, 0x137154d4ull,
0x13851caaull, 0x13851cabull, 0x139d8327ull, 0x139d8328ull, 0x13c25be5ull, 0x13fd5b13ull, 0x13feb11aull, 0x14051caaull,
0x14051cabull, 0x141d8327ull, 0x141d8328ull, 0x14576b50ull, 0x14576b51ull, 0x145dda71ull, 0x145dda72ull, 0x147d5b13ull,
0x147eb11aull, 0x148ceacdull, 0x149d8327ull, 0x149d8328ull, 0x14ddda71ull, 0x14ddda72ull, 0x14fd5b13ull, 0x14feb11aull,
0x1516d504ull, 0x1516d505ull, 0x152e43fdull, 0x152e43feull, 0x153f04d3ull, 0x153f04d4ull, 0x155d2f6eull, 0x157d5b13ull,
0x157eb11aull, 0x159678c3ull, 0x159678c4ull, 0x15ae43fdull, 0x15ae43feull, 0x15bf04d3ull, 0x15bf04d4ull, 0x15d6814bull,
0x15dd2f6eull, 0x160ceacdull, 0x162e43fdull, 0x162e43feull, 0x163f04d3ull, 0x163f04d4ull, 0x16658fd9ull, 0x166a9932ull,
0x166a9933ull, 0x1677e7faull, 0x16937074ull, 0x16937075ull, 0x16aaececull, 0x16ae43fdull, 0x16ae43feull, 0x16bf04d3ull,
0x16bf04d4ull, 0x16d4cf03ull, 0x16e58fd9ull, 0x171085f5ull, 0x172a13c8ull, 0x172aececull, 0x172e43fdull, 0x172e43feull,
0x1768e6eaull, 0x1768e6ebull, 0x1769c00eull, 0x1769c00full, 0x178031b1ull, 0x17aa13c8ull, 0x17ae43fdull, 0x17ae43feull,
0x17e8e6eaull, 0x17e8e6ebull, 0x17e9c00eull, 0x17e9c00full, 0x17f686f8ull, 0x180031b1ull, 0x182a13c8ull, 0x1835b047ull,
0x1835b048ull, 0x1869c00eull, 0x1869c00full, 0x187e4488ull, 0x188031b1ull, 0x1894d14full, 0x18bf3b1cull, 0x18bf3b1dull,
0x18d498baull, 0x18f5c920ull, 0x18ff0287ull, 0x18ff0288ull, 0x190031b1ull, 0x190a3012ull, 0x190a3013ull, 0x193f3b1cull,
0x193f3b1dull, 0x195498baull, 0x197b1641ull, 0x197f0287ull, 0x197f0288ull, 0x198031b1ull, 0x199f728bull, 0x199f728cull,
0x19bafd68ull, 0x19bafd69ull, 0x19d5a827ull, 0x19f4614bull, 0x19fdbcd1ull, 0x19fdbcd2ull, 0x1a0031b1ull, 0x1a2f56d4ull,
0x1a55a827ull, 0x1a74614bull, 0x1a7dbcd1ull, 0x1a7dbcd2ull, 0x1a8f8e43ull, 0x1aaf56d4ull, 0x1ab44872ull, 0x1ab44873ull,
0x1ad1dc0full, 0x1ad1dc10ull, 0x1ad5a827ull, 0x1af4614bull, 0x1b0f8e43ull, 0x1b2052aaull, 0x1b344872ull, 0x1b344873ull,
0x1b41f7c7ull, 0x1b74614bull, 0x1b7707dbull, 0x1b7707dcull, 0x1b8f8e43ull, 0x1bb7a2edull, 0x1bb7a2eeull, 0x1bdb2c89ull,
0x1bf4614bull, 0x1bfc0f94ull, 0x1c0f8e43ull, 0x1c37a2edull, 0x1c37a2eeull, 0x1c45ceebull, 0x1c45ceecull, 0x1c5b2c89ull,
0x1c67c6eaull, 0x1c86cb06ull, 0x1c86cb07ull, 0x1c8f8e43ull, 0x1cc77c29ull, 0x1cce9228ull, 0x1ce179b9ull, 0x1ce179baull,
0x1ce7c6eaull, 0x1d0f8e43ull, 0x1d4e9228ull, 0x1d672ea0ull, 0x1d6e141aull, 0x1d6e141bull, 0x1d734c57ull, 0x1d734c58ull,
0x1d7f6a0full, 0x1d8f8e43ull, 0x1d9aed9eull, 0x1de550deull, 0x1de72ea0ull, 0x1dee141aull, 0x1dee141bull, 0x1df34c57ull,
0x1df34c58ull, 0x1e011b59ull, 0x1e0f8e43ull, 0x1e2d62f8ull, 0x1e3a6f90ull, 0x1e3a6f91ull, 0x1e6e141aull, 0x1e6e141bull,
0x1e734c57ull, 0x1e734c58ull, 0x1e811b59ull, 0x1e8909d1ull, 0x1e8909d2ull, 0x1e907d24ull, 0x1eba6f90ull, 0x1eba6f91ull,
0x1ef34c57ull, 0x1ef34c58ull, 0x1f011b59ull, 0x1f020a3aull, 0x1f107d24ull, 0x1f734c57ull, 0x1f734c58ull, 0x1f7afd3dull,
0x1f820a3aull, 0x1f907d24ull, 0x1fbe0c4bull, 0x1ff34c57ull, 0x1ff34c58ull, 0x1ffa85ccull, 0x1ffa85cdull, 0x1ffafd3dull,
0x20020a3aull, 0x200909d1ull, 0x200909d2ull, 0x20107d24ull, 0x20602f08ull, 0x20602f09ull, 0x20734c57ull, 0x20734c58ull,
0x207e2287ull, 0x2086ee7cull, 0x2086ee7dull, 0x20907d24ull, 0x209bf717ull, 0x209bf718ull, 0x209f93d2ull, 0x20b49c6dull,
0x20f34c57ull, 0x20f34c58ull, 0x2114bda2ull, 0x2114bda3ull, 0x211f93d2ull, 0x2126cd47ull, 0x21349c6dull, 0x21613cb3ull,
0x216bc100ull, 0x216bc101ull, 0x219f93d2ull, 0x21a6cd47ull, 0x21caec90ull, 0x21e13cb3ull, 0x21e82446ull, 0x21ebc100ull,
0x21ebc101ull, 0x2207fc27ull, 0x224778c6ull, 0x224778c7ull, 0x224aec90ull, 0x225614a1ull, 0x225614a2ull, 0x22682446ull,
0x22778cd6ull, 0x2298316cull, 0x22ae1b34ull, 0x22ae1b35ull, 0x22bfc47eull, 0x22bfc47full, 0x22c778c6ull, 0x22c778c7ull,
0x22d614a1ull, 0x22d614a2ull, 0x22f78cd6ull, 0x2300c0ecull, 0x2318316cull, 0x2339a9a0ull, 0x2339a9a1ull, 0x233ac9fdull,
0x233ac9feull, 0x236f7233ull, 0x236f7234ull, 0x237da7b4ull, 0x23803436ull, 0x238b82a3ull, 0x23bcb70full, 0x23bcb710ull,
0x23fc20fcull, 0x23fc20fdull, 0x23fda7b4ull, 0x23fe7e3dull, 0x23fe7e3eull, 0x24003436ull, 0x24052b3eull, 0x24052b3full,
0x243e3dc7ull, 0x247c20fcull, 0x247c20fdull, 0x247e7e3dull, 0x247e7e3eull, 0x24803436ull, 0x249a99c2ull, 0x249a99c3ull,
0x249e88d0ull, 0x249e88d1ull, 0x24a0f127ull, 0x24fc20fcull, 0x24fc20fdull, 0x24fcf786ull, 0x2501baedull, 0x2501baeeull,
0x250deaf9ull, 0x250deafaull, 0x251d0219ull, 0x251e88d0ull, 0x251e88d1ull, 0x252d9ff0ull, 0x257b70ceull, 0x257b70cfull,
0x25986df2ull, 0x25986df3ull, 0x259d0219ull, 0x25a00f88ull, 0x25ad9ff0ull, 0x25e4baf1ull, 0x25e4baf2ull, 0x25ed09ddull,
0x260237f4ull, 0x26200f88ull, 0x264505fbull, 0x2664baf1ull, 0x2664baf2ull, 0x266875b6ull, 0x266875b7ull, 0x266d09ddull,
0x268237f4ull, 0x26a00f88ull, 0x26c505fbull, 0x26d907ecull, 0x26e875b6ull, 0x26e875b7ull, 0x26fa6eefull, 0x26fa6ef0ull,
0x270c0d97ull, 0x2710cc5dull, 0x2748136aull, 0x274f06f3ull, 0x274f06f4ull, 0x275907ecull, 0x277c77a7ull, 0x277c77a8ull,
0x27820c9eull, 0x27820c9full, 0x27a2c5f1ull, 0x27ac6fe3ull, 0x27ac6fe4ull, 0x27c8136aull, 0x27cf06f3ull, 0x27cf06f4ull,
0x27fc77a7ull, 0x27fc77a8ull, 0x28020c9eull, 0x28020c9full, 0x2807a4f3ull, 0x2807a4f4ull, 0x28160e8full, 0x28160e90ull,
0x285e74beull, 0x286a27f1ull, 0x287b47f6ull, 0x288647f8ull, 0x2887a4f3ull, 0x2887a4f4ull, 0x28960e8full, 0x28960e90ull,
0x28d34414ull, 0x28fa1844ull, 0x28fa1845ull, 0x28fb47f6ull, 0x290647f8ull, 0x291ba6e4ull, 0x291ba6e5ull, 0x293c75f8ull,
0x293c75f9ull, 0x294676f1ull, 0x29534414ull, 0x297a1844ull, 0x297a1845ull, 0x2980afa3ull, 0x299e730full, 0x29a20d76ull,
0x29c676f1ull, 0x29d077e9ull, 0x29d077eaull, 0x29ffb099ull, 0x29ffb09aull, 0x2a00afa3ull, 0x2a040a8cull, 0x2a040a8dull,
0x2a0be04dull, 0x2a6ae06cull, 0x2a6ee79aull, 0x2a6ee79bull, 0x2a7fb099ull, 0x2a7fb09aull, 0x2a813e62ull, 0x2a840a8cull,
0x2a840a8dull, 0x2a8be04dull, 0x2a8fd8b8ull, 0x2a8fd8b9ull, 0x2aeae06cull, 0x2afce46full, 0x2b013e62ull, 0x2b0c6f0cull,
0x2b302851ull, 0x2b44a9bdull, 0x2b44a9beull, 0x2b4a90d3ull, 0x2b4a90d4ull, 0x2b7ce46full, 0x2b813e62ull, 0x2b92cc43ull,
0x2b92cc44ull, 0x2bc4a9bdull, 0x2bc4a9beull, 0x2be4f956ull, 0x2be7ece1ull, 0x2bfce46full, 0x2c12cc43ull, 0x2c12cc44ull,
0x2c218dfaull, 0x2c218dfbull, 0x2c44a9bdull, 0x2c44a9beull, 0x2c64f956ull, 0x2c6ee79aull, 0x2c6ee79bull, 0x2cabbb00ull,
0x2cabbb01ull, 0x2cb31bdcull, 0x2cc4a9bdull, 0x2cc4a9beull, 0x2ccc0a99ull, 0x2cd9c8acull, 0x2d1f43a2ull, 0x2d331bdcull,
0x2d44a9bdull, 0x2d44a9beull, 0x2d4c0a99ull, 0x2d59c8acull, 0x2d8654e5ull, 0x2d972233ull, 0x2dc4a9bdull, 0x2dc4a9beull,
0x2df170b4ull, 0x2df170b5ull, 0x2dfb1be8ull, 0x2dfb1be9ull, 0x2e0654e5ull, 0x2e172233ull, 0x2e44a9bdull, 0x2e44a9beull,
0x2e5fe2d3ull, 0x2e7170b4ull, 0x2e7170b5ull, 0x2e881d6bull, 0x2e881d6cull, 0x2ec4a9bdull, 0x2ec4a9beull, 0x2edd7806ull,
0x2edfe2d3ull, 0x2ef3db81ull, 0x2ef3db82ull, 0x2f1a4d93ull, 0x2f1a4d94ull, 0x2f266394ull, 0x2f266395ull, 0x2f352bc2ull,
0x2f44a9bdull, 0x2f44a9beull, 0x2f5fe2d3ull, 0x2f851f7eull, 0x2f851f7full, 0x2f9a4d93ull, 0x2f9a4d94ull, 0x2fb586a9ull,
0x2fc4a9bdull, 0x2fc4a9beull, 0x2ff1f4aeull, 0x30051f7eull, 0x30051f7full, 0x300fb689ull, 0x303586a9ull, 0x3044a9bdull,
0x3044a9beull, 0x3071f4aeull, 0x30851f7eull, 0x30851f7full, 0x308fb689ull, 0x30b57782ull, 0x30b57783ull, 0x30c4a9bdull,
0x30c4a9beull, 0x30ccfac3ull, 0x30ea79ddull, 0x30ea79deull, 0x31009374ull, 0x31009375ull, 0x310fb689ull, 0x31357782ull,
0x31357783ull, 0x3144a9bdull, 0x3144a9beull, 0x3144f57eull, 0x316a79ddull, 0x316a79deull, 0x318fb689ull, 0x31a29e99ull,
0x31b57782ull, 0x31b57783ull, 0x31c4a9bdull, 0x31c4a9beull, 0x31db7516ull, 0x31e105d5ull, 0x31e105d6ull, 0x320fb689ull,
0x32229e99ull, 0x32357782ull, 0x32357783ull, 0x3244a9bdull, 0x3244a9beull, 0x325c4bd1ull, 0x325c4bd2ull, 0x3266b4e2ull,
0x328afc85ull, 0x32afd79cull, 0x32afd79dull, 0x32c0b74eull, 0x32c0b74full, 0x32db7516ull, 0x32dc4bd1ull, 0x32dc4bd2ull,
0x32e6b4e2ull, 0x330afc85ull, 0x332497d0ull, 0x332497d1ull, 0x332d07a9ull, 0x332d07aaull, 0x335c4bd1ull, 0x335c4bd2ull,
0x336984d5ull, 0x33779494ull, 0x3390e50aull, 0x33a497d0ull, 0x33a497d1ull, 0x33ad07a9ull, 0x33ad07aaull, 0x33dc4bd1ull,
0x33dc4bd2ull, 0x33e81cdbull, 0x33e81cdcull, 0x33e984d5ull, 0x3410e50aull, 0x342b9fb0ull, 0x3432a78full, 0x3432a790ull,
0x343f5598ull, 0x34681cdbull, 0x34681cdcull, 0x346984d5ull, 0x3490e50aull, 0x34b2a78full, 0x34b2a790ull, 0x34ca9242ull,
0x34ca9243ull, 0x34e27cf5ull, 0x34e27cf6ull, 0x34e81cdbull, 0x34e81cdcull, 0x34e984d5ull, 0x3510e50aull, 0x351faa56ull,
0x351faa57ull, 0x3532a78full, 0x3532a790ull, 0x3543e399ull, 0x354a9242ull, 0x354a9243ull, 0x3590e50aull, 0x359faa56ull,
0x359faa57ull, 0x35b51e4cull, 0x35b51e4dull, 0x35be9ce9ull, 0x35ca9242ull, 0x35ca9243ull, 0x35f2d6d6ull, 0x35f2d6d7ull,
0x362a6451ull, 0x362a6452ull, 0x3632a78full, 0x3632a790ull, 0x36351e4cull, 0x36351e4dull, 0x363e9ce9ull, 0x364a9242ull,
0x364a9243ull, 0x366e724full, 0x3694f05bull, 0x3694f05cull, 0x36afc14full, 0x36b2a78full, 0x36b2a790ull, 0x36b51e4cull,
0x36b51e4dull, 0x36ca9242ull, 0x36ca9243ull, 0x36ee724full, 0x3714f05bull, 0x3714f05cull, 0x372fc14full, 0x37351e4cull,
0x37351e4dull, 0x374a9242ull, 0x374a9243ull, 0x376e724full, 0x378614c1ull, 0x378614c2ull, 0x3794f05bull, 0x3794f05cull,
0x37954cb3ull, 0x37afc14full, 0x37ca9242ull, 0x37ca9243ull, 0x380d828eull, 0x380d828full, 0x3814f05bull, 0x3814f05cull,
0x382fc14full, 0x385f96b5ull, 0x38691a1cull, 0x38691a1dull, 0x38913975ull, 0x3894f05bull, 0x3894f05cull, 0x38afc14full,
0x38df96b5ull, 0x38f85e09ull, 0x38f85e0aull, 0x39025ddbull, 0x39113975ull, 0x3914f05bull, 0x3914f05cull, 0x393a155cull,
0x393a155dull, 0x393a71b4ull, 0x395d8d16ull, 0x39913975ull, 0x3994f05bull, 0x3994f05cull, 0x39b76345ull, 0x39b76346ull,
0x39ba155cull, 0x39ba155dull, 0x39ba71b4ull, 0x39d61f49ull, 0x3a0bd547ull, 0x3a14f05bull, 0x3a14f05cull, 0x3a376345ull,
0x3a376346ull, 0x3a489cbaull, 0x3a489cbbull, 0x3a561f49ull, 0x3a68b1c9ull, 0x3a68b1caull, 0x3a889cbaull, 0x3a889cbbull,
0x3a8bd547ull, 0x3a94f05bull, 0x3a94f05cull, 0x3ab76345ull, 0x3ab76346ull, 0x3ae8b1c9ull, 0x3ae8b1caull, 0x3aeb0fa4ull,
0x3aeb0fa5ull, 0x3b0b78efull, 0x3b0b78f0ull, 0x3b14f05bull, 0x3b14f05cull, 0x3b174e36ull, 0x3b174e37ull, 0x3b2b0fa4ull,
0x3b2b0fa5ull, 0x3b68b1c9ull, 0x3b68b1caull, 0x3b690e21ull, 0x3b8b0fa4ull, 0x3b8b0fa5ull, 0x3b8b78efull, 0x3b8b78f0ull,
0x3b94f05bull, 0x3b94f05cull, 0x3b974e36ull, 0x3b974e37ull, 0x3ba8b1c9ull, 0x3ba8b1caull, 0x3bf48710ull, 0x3bf48711ull,
0x3c04f05bull, 0x3c04f05cull, 0x3c08b1c9ull, 0x3c08b1caull, 0x3c0b0fa4ull, 0x3c0b0fa5ull, 0x3c0b78efull, 0x3c0b78f0ull,
0x3c174e36ull, 0x3c174e37ull, 0x3c348710ull, 0x3c348711ull, 0x3c86a352ull, 0x3c86a353ull, 0x3c874e36ull, 0x3c874e37ull,
0x3c88b1c9ull, 0x3c88b1caull, 0x3c8b78efull, 0x3c8b78f0ull, 0x3c948710ull, 0x3c948711ull, 0x3cb95cadull, 0x3cb95caeull,
0x3d00b1c9ull, 0x3d00b1caull, 0x3d048710ull, 0x3d048711ull, 0x3d06a352ull, 0x3d06a353ull, 0x3d074e36ull, 0x3d074e37ull,
0x3d0b78efull, 0x3d0b78f0ull, 0x3d195cadull, 0x3d195caeull, 0x3d80b1c9ull, 0x3d80b1caull, 0x3d834e36ull, 0x3d834e37ull,
0x3d8378efull, 0x3d8378f0ull, 0x3d848710ull, 0x3d848711ull, 0x3d86a352ull, 0x3d86a353ull, 0x3d895cadull, 0x3d895caeull,
0x3e008710ull, 0x3e008711ull, 0x3e01309cull, 0x3e01309dull, 0x3e015cadull, 0x3e015caeull, 0x3e0378efull, 0x3e0378f0ull,
0x3e06a352ull, 0x3e06a353ull, 0x3e0ecf63ull, 0x3e0ecf64ull, 0x3e808710ull, 0x3e808711ull, 0x3e81309cull, 0x3e81309dull,
0x3e815cadull, 0x3e815caeull, 0x3e8178efull, 0x3e8178f0ull, 0x3e82a352ull, 0x3e82a353ull, 0x3e86cf63ull, 0x3e86cf64ull,
0x3f0078efull, 0x3f0078f0ull, 0x3f008710ull, 0x3f008711ull, 0x3f00a352ull, 0x3f00a353ull, 0x3f01309cull, 0x3f01309dull,
0x3f015cadull, 0x3f015caeull, 0x3f02cf63ull, 0x3f02cf64ull, 0x3f800710ull, 0x3f800711ull, 0x3f805cadull, 0x3f805caeull,
0x3f8078efull, 0x3f8078f0ull, 0x3f80a352ull, 0x3f80a353ull, 0x3f80cf63ull, 0x3f80cf64ull, 0x3f81309cull, 0x3f81309dull,
0x40000710ull, 0x40000711ull, 0x40002352ull, 0x40002353ull, 0x4000309cull, 0x4000309dull, 0x400038efull, 0x400038f0ull,
0x40005cadull, 0x40005caeull, 0x4000cf63ull, 0x4000cf64ull, 0x40800710ull, 0x40800711ull, 0x408018efull, 0x408018f0ull,
0x40801cadull, 0x40801caeull, 0x40802352ull, 0x40802353ull, 0x4080309cull, 0x4080309dull, 0x40804f63ull, 0x40804f64ull,
0x41000352ull, 0x41000353ull, 0x41000710ull, 0x41000711ull, 0x410008efull, 0x410008f0ull, 0x41000f63ull, 0x41000f64ull,
0x41001cadull, 0x41001caeull, 0x4100309cull, 0x4100309dull, 0x41800352ull, 0x41800353ull, 0x41800cadull, 0x41800caeull,
0x41800cf1ull, 0x41800cf2ull, 0x41800f63ull, 0x41800f64ull, 0x4180109cull, 0x4180109dull, 0x4180330eull, 0x4180330full,
0x4200009cull, 0x4200009dull, 0x42000352ull, 0x42000353ull, 0x420004adull, 0x420004aeull, 0x42000cf1ull, 0x42000cf2ull,
0x42000f63ull, 0x42000f64ull, 0x4200130eull, 0x4200130full, 0x4280009cull, 0x4280009dull, 0x428000adull, 0x428000aeull,
0x4280030eull, 0x4280030full, 0x42800352ull, 0x42800353ull, 0x42800763ull, 0x42800764ull, 0x42800cf1ull, 0x42800cf2ull,
0x4300009cull, 0x4300009dull, 0x430000b7ull, 0x430000b8ull, 0x4300030eull, 0x4300030full, 0x43000363ull, 0x43000364ull,
0x430004f1ull, 0x430004f2ull, 0x43000f48ull, 0x43000f49ull, 0x4380009cull, 0x4380009dull, 0x438000b7ull, 0x438000b8ull,
0x438000f1ull, 0x438000f2ull, 0x43800163ull, 0x43800164ull, 0x4380030eull, 0x4380030full, 0x43800748ull, 0x43800749ull,
0x44000063ull, 0x44000064ull, 0x4400009cull, 0x4400009dull, 0x440000b7ull, 0x440000b8ull, 0x440000f1ull, 0x440000f2ull,
0x4400010eull, 0x4400010full, 0x44000348ull, 0x44000349ull, 0x4480000eull, 0x4480000full, 0x4480006aull, 0x4480006bull,
0x448000b7ull, 0x448000b8ull, 0x448000f1ull, 0x448000f2ull, 0x44800148ull, 0x44800149ull, 0x44800395ull, 0x44800396ull,
0x4500000eull, 0x4500000full, 0x45000048ull, 0x45000049ull, 0x4500006aull, 0x4500006bull, 0x45000071ull, 0x45000072ull,
0x450000b7ull, 0x450000b8ull, 0x45000195ull, 0x45000196ull, 0x4580000eull, 0x4580000full, 0x45800031ull, 0x45800032ull,
0x45800037ull, 0x45800038ull, 0x45800048ull, 0x45800049ull, 0x4580006aull, 0x4580006bull, 0x45800095ull, 0x45800096ull,
0x46000008ull, 0x46000009ull, 0x4600000eull, 0x4600000full, 0x46000011ull, 0x46000012ull, 0x46000015ull, 0x46000016ull,
0x46000037ull, 0x46000038ull, 0x4600006aull, 0x4600006bull, 0x46800008ull, 0x46800009ull, 0x46800014ull, 0x46800015ull,
0x46800016ull, 0x46800017ull, 0x46800018ull, 0x4680002aull, 0x4680002bull, 0x4680006bull, 0x4680006cull, 0x47000007ull,
0x47000008ull, 0x47000009ull, 0x4700000aull, 0x4700000bull, 0x47000014ull, 0x47000015ull, 0x47000016ull, 0x4700002bull,
0x4700002cull, 0x47800000ull, 0x47800001ull, 0x47800005ull, 0x47800006ull, 0x4780000aull, 0x4780000bull, 0x4780000cull,
0x47800014ull, 0x47800015ull, 0x48000002ull, 0x48000003ull, 0x48000004ull, 0x48000005ull, 0x48000006ull, 0x48000007ull,
0x4800000bull, 0x4800000cull, 0x48000019ull, 0x4800001aull, 0x48800001ull, 0x48800002ull, 0x48800003ull, 0x48800004ull,
0x48800005ull, 0x48800006ull, 0x48800007ull, 0x48800009ull, 0x4880000aull, 0x49000000ull, 0x49000001ull, 0x49000002ull,
0x49000006ull, 0x49000007ull, 0x49800000ull, 0x49800001ull, 0x49800002ull, 0x49800003ull, 0x4a000000ull, 0x4a000001ull,
0x4b800001ull, 0x4b800002ull, 0x4b800003ull, 0x4c000000ull, 0x4c000001ull, 0x4c000002ull, 0x4c800000ull, 0x4c800001ull,
0x4d000000ull, 0x4d000001ull, 0x4d000002ull, 0x4d00000aull, 0x4d00000bull, 0x4d800000ull, 0x4d800001ull, 0x4d800002ull,
0x4d800007ull, 0x4d800008ull, 0x4e000000ull, 0x4e000001ull, 0x4e000002ull, 0x4e000003ull, 0x4e000006ull, 0x4e800000ull,
0x4e800001ull, 0x4e80000aull, 0x4e80000bull, 0x4e80000cull, 0x4e800028ull, 0x4e800029ull, 0x4e800038ull, 0x4f000000ull,
0x4f000001ull, 0x4f000002ull, 0x4f000008ull, 0x4f000024ull, 0x4f000025ull, 0x4f00003cull, 0x4f800000ull, 0x4f800001ull,
0x4f800009ull, 0x4f800026ull, 0x4f800027ull, 0x4f80003aull, 0x50000000ull, 0x50000001ull, 0x50000002ull, 0x50000008ull,
0x50000009ull, 0x50000025ull, 0x50000026ull, 0x5000003bull, 0x50800002ull, 0x50800003ull, 0x50800006ull, 0x50800007ull,
0x50800026ull, 0x5080003aull, 0x5080003bull, 0x508000e1ull, 0x51000003ull, 0x51000004ull, 0x51000005ull, 0x51000006ull,
0x51000007ull, 0x5100001bull, 0x5100001cull, 0x51000064ull, 0x51000065ull, 0x510000b7ull, 0x510000b8ull, 0x51800004ull,
0x51800005ull, 0x51800006ull, 0x51800007ull, 0x5180002bull, 0x51800035ull, 0x51800036ull, 0x51800115ull, 0x51800116ull,
0x52000004ull, 0x5200001eull, 0x52000035ull, 0x52000036ull, 0x520000e6ull, 0x520000e7ull, 0x52000115ull, 0x52000116ull,
0x52000277ull, 0x52000278ull, 0x5280000aull, 0x5280000bull, 0x52800017ull, 0x52800018ull, 0x5280001eull, 0x528000feull,
0x5280016eull, 0x5280021full, 0x5300002dull, 0x53000033ull, 0x53000034ull, 0x53000056ull, 0x530000c6ull, 0x530004a7ull,
0x530004a8ull, 0x53000500ull, 0x53800056ull, 0x53800072ull, 0x538000aaull, 0x53800337ull, 0x53801135ull, 0x53801d11ull,
0x53801d12ull, 0x54000080ull, 0x5400009cull, 0x54000337ull, 0x5400041bull, 0x5400041cull, 0x5400058cull, 0x54000c8bull,
0x54800087ull, 0x54800095ull, 0x5480009cull, 0x548002f1ull, 0x5480058cull, 0x54800a36ull, 0x5500008aull, 0x5500008bull,
0x55000091ull, 0x55000092ull, 0x5500043eull, 0x5500043full, 0x55000569ull, 0x550006b6ull, 0x550006b7ull, 0x5500090bull,
0x5500090cull, 0x5580008aull, 0x5580008bull, 0x55800302ull, 0x55800303ull, 0x558006b6ull, 0x558006b7ull, 0x5580168eull,
0x558017b8ull, 0x558017b9ull, 0x55804614ull, 0x55804615ull, 0x5600008aull, 0x5600008bull, 0x56000128ull, 0x56000129ull,
0x56000264ull, 0x56000265ull, 0x56000f37ull, 0x56000f38ull, 0x5600168eull, 0x5600363dull, 0x56800177ull, 0x56800178ull,
0x56800215ull, 0x56800216ull, 0x56801378ull, 0x56801aceull, 0x56801acfull, 0x56806ac5ull, 0x56807a9cull, 0x56807a9dull,
0x57000215ull, 0x57000216ull, 0x57000dacull, 0x57000dadull, 0x57005081ull, 0x57007a9cull, 0x57007a9dull, 0x570094e0ull,
0x570094e1ull, 0x5702cd1full, 0x5780143dull, 0x5780143eull, 0x57801a09ull, 0x57805081ull, 0x57805da3ull, 0x578087beull,
0x578087bfull, 0x5782f73aull, 0x5782f73bull, 0x580010f5ull, 0x58001d51ull, 0x58001d52ull, 0x58005712ull, 0x58008e4full,
0x58008e50ull, 0x58018ed0ull, 0x5801b8ebull, 0x5801b8ecull, 0x58805a5aull, 0x58805a5bull, 0x58808b07ull, 0x5880efa8ull,
0x5880efa9ull, 0x58818ed0ull, 0x58825813ull, 0x588aa9bdull, 0x59000c6bull, 0x59004060ull, 0x59008b07ull, 0x5900efa8ull,
0x5900efa9ull, 0x5902bcb4ull, 0x5902bcb5ull, 0x590b48e4ull, 0x590b48e5ull, 0x598065b3ull, 0x598065b4ull, 0x59807faeull,
0x5981718dull, 0x5981d62eull, 0x5981d62full, 0x598385f7ull, 0x598385f8ull, 0x5988b295ull, 0x5988b296ull, 0x5a0006beull,
0x5a0006bfull, 0x5a00460cull, 0x5a00460dull, 0x5a00fe4aull, 0x5a024971ull, 0x5a024972ull, 0x5a04d11full, 0x5a07676eull,
0x5a8137ebull, 0x5a8137ecull, 0x5a820fd0ull, 0x5a8cea0cull, 0x5a8e3533ull, 0x5a8e3534ull, 0x5ab18536ull, 0x5ab18537ull,
0x5ac30238ull, 0x5b00af28ull, 0x5b00af29ull, 0x5b020fd0ull, 0x5b029893ull, 0x5b0a28bdull, 0x5b2c0298ull, 0x5b2c0299ull,
0x5b4884d6ull, 0x5b806ac7ull, 0x5b80af28ull, 0x5b80af29ull, 0x5b82dcf4ull, 0x5b82dcf5ull, 0x5b8b8964ull, 0x5b8b8965ull,
0x5baec3e7ull, 0x5baec3e8ull, 0x5bc5c387ull, 0x5c0365b7ull, 0x5c0365b8ull, 0x5c08d2d5ull, 0x5c08d2d6ull, 0x5c2c0298ull,
0x5c2c0299ull, 0x5c2d6340ull, 0x5c47242eull, 0x5c47242full, 0x5c4884d6ull, 0x5c84c0ffull, 0x5c87778eull, 0x5c88d2d5ull,
0x5c88d2d6ull, 0x5c9663a0ull, 0x5c9663a1ull, 0x5ca1331cull, 0x5ca1331dull, 0x5cde23ceull, 0x5d0ce1fcull, 0x5d0e3d43ull,
0x5d0e3d44ull, 0x5d21331cull, 0x5d21331dull, 0x5d342ba5ull, 0x5d342ba6ull, 0x5d405bc9ull, 0x5d535452ull, 0x5da1331cull,
0x5da1331dull, 0x5daaaf61ull, 0x5dc9d80dull, 0x5dc9d80eull, 0x5dd35452ull, 0x5dde23ceull, 0x5dfaa60bull, 0x5dfaa60cull,
0x5e0a2cc5ull, 0x5e1e7f3dull, 0x5e1e7f3eull, 0x5e1fd92dull, 0x5e269adaull, 0x5e269adbull, 0x5e560831ull, 0x5e7aa60bull,
0x5e7aa60cull, 0x5e8f97dfull, 0x5e9a6e13ull, 0x5e9fd92dull, 0x5ea69adaull, 0x5ea69adbull, 0x5ed0a073ull, 0x5ed4ae41ull,
0x5ed4ae42ull, 0x5f124d6cull, 0x5f17b886ull, 0x5f1fd92dull, 0x5f50a073ull, 0x5f54ae41ull, 0x5f54ae42ull, 0x5f924d6cull,
0x5f9255d2ull, 0x5f9fd92dull, 0x5fb83cd0ull, 0x5fe23a02ull, 0x5fe23a03ull, 0x5fe4e57bull, 0x5fe4e57cull, 0x60124d6cull,
0x601255d2ull, 0x601fd92dull, 0x60623a02ull, 0x60623a03ull, 0x607bf795ull, 0x607d491eull, 0x607d491full, 0x60862400ull,
0x60862401ull, 0x60924d6cull, 0x609fd92dull, 0x60cde861ull, 0x60e23a02ull, 0x60e23a03ull, 0x60fd491eull, 0x60fd491full,
0x611fd92dull, 0x6136e0c7ull, 0x6136eb46ull, 0x6136eb47ull, 0x6141b68full, 0x6141b690ull, 0x614de861ull, 0x6164e57bull,
0x6164e57cull, 0x6190ef49ull, 0x6190ef4aull, 0x61ab5cfaull, 0x61b6e0c7ull, 0x61c1b68full, 0x61c1b690ull, 0x61cde861ull,
0x62311ee0ull, 0x62311ee1ull, 0x6236e0c7ull, 0x624de861ull, 0x6277e37aull, 0x627b4990ull, 0x627b4991ull, 0x62a7ec64ull,
0x62b11ee0ull, 0x62b11ee1ull, 0x62cde861ull, 0x62dce743ull, 0x62dce744ull, 0x62e2e5edull, 0x62e2e5eeull, 0x630c0988ull,
0x630c0989ull, 0x6312eed7ull, 0x6312eed8ull, 0x6324ed0full, 0x63311ee0ull, 0x63311ee1ull, 0x634de861ull, 0x6371e4d0ull,
0x6392eed7ull, 0x6392eed8ull, 0x639e9434ull, 0x639e9435ull, 0x63b11ee0ull, 0x63b11ee1ull, 0x63b96ab8ull, 0x63cde861ull,
0x63f6e3b3ull, 0x64106f66ull, 0x6427d98aull, 0x6427d98bull, 0x64311ee0ull, 0x64311ee1ull, 0x6443a98cull, 0x6443a98dull,
0x644de861ull, 0x6476e3b3ull, 0x6492eed7ull, 0x6492eed8ull, 0x64954edeull, 0x64954edfull, 0x64c3a98cull, 0x64c3a98dull,
0x64ef655eull, 0x64ef655full, 0x64f6e3b3ull, 0x6512eed7ull, 0x6512eed8ull, 0x651f8db3ull, 0x652c7c35ull, 0x652c7c36ull,
0x6543a98cull, 0x6543a98dull, 0x656b2534ull, 0x659f8db3ull, 0x65ac7c35ull, 0x65ac7c36ull, 0x65b48b3full, 0x65b48b40ull,
0x65b812e1ull, 0x65c3a98cull, 0x65c3a98dull, 0x6609b833ull, 0x661f8db3ull, 0x66348b3full, 0x66348b40ull, 0x6643a98cull,
0x6643a98dull, 0x665e8658ull, 0x665e8659ull, 0x666b2534ull, 0x6689b833ull, 0x669f8db3ull, 0x66b05be7ull, 0x66c3a98cull,
0x66c3a98dull, 0x66d1efe6ull, 0x66de8658ull, 0x66de8659ull, 0x670442d3ull, 0x6712f740ull, 0x6712f741ull, 0x671f8db3ull,
0x6738beccull, 0x6738becdull, 0x67491eecull, 0x67491eedull, 0x677beaffull, 0x678442d3ull, 0x6792f740ull, 0x6792f741ull,
0x67a3bd0bull, 0x67a3bd0cull, 0x67b8beccull, 0x67b8becdull, 0x67d409acull, 0x67d409adull, 0x67d62373ull, 0x680442d3ull,
0x6811e843ull, 0x6812f740ull, 0x6812f741ull, 0x681b5a26ull, 0x6838beccull, 0x6838becdull, 0x68562373ull, 0x688442d3ull,
0x688b158bull, 0x6891e843ull, 0x689b5a26ull, 0x68b8beccull, 0x68b8becdull, 0x68e0a453ull, 0x68e0a454ull, 0x690442d3ull,
0x6907ac2full, 0x6911e843ull, 0x691b5a26ull, 0x6938beccull, 0x6938becdull, 0x6960a453ull, 0x6960a454ull, 0x6980d977ull,
0x699b5a26ull, 0x69c230afull, 0x69c230b0ull, 0x69c9cd98ull, 0x69c9cd99ull, 0x69d8416eull, 0x69f8410bull, 0x6a00d977ull,
0x6a4230afull, 0x6a4230b0ull, 0x6a49cd98ull, 0x6a49cd99ull, 0x6a70a422ull, 0x6a78410bull, 0x6a851d2aull, 0x6ac230afull,
0x6ac230b0ull, 0x6ac589e5ull, 0x6ac589e6ull, 0x6ac9cd98ull, 0x6ac9cd99ull, 0x6af0a422ull, 0x6af8410bull, 0x6b0ffe42ull,
0x6b0ffe43ull, 0x6b1f289aull, 0x6b1f289bull, 0x6b347b19ull, 0x6b347b1aull, 0x6b49cd98ull, 0x6b49cd99ull, 0x6b78410bull,
0x6b7e51fbull, 0x6b82fb50ull, 0x6b82fb51ull, 0x6b8da490ull, 0x6b8f28ccull, 0x6b9f289aull, 0x6b9f289bull, 0x6bc9cd98ull,
0x6bc9cd99ull, 0x6c02fb50ull, 0x6c02fb51ull, 0x6c0da490ull, 0x6c1f289aull, 0x6c1f289bull, 0x6c266474ull, 0x6c266475ull,
0x6c65fae2ull, 0x6c65fae3ull, 0x6c66bd00ull, 0x6c66bd01ull, 0x6c8da490ull, 0x6c9f289aull, 0x6c9f289bull, 0x6ca6bdc6ull,
0x6ca6bdc7ull, 0x6cc2f2cdull, 0x6cc2f2ceull, 0x6ce5fae2ull, 0x6ce5fae3ull, 0x6cf6bccfull, 0x6d0da490ull, 0x6d1f289aull,
0x6d1f289bull, 0x6d310db4ull, 0x6d32f2ffull, 0x6d76bccfull, 0x6d77af74ull, 0x6d77af75ull, 0x6d84ca47ull, 0x6db10db4ull,
0x6dd4d7e7ull, 0x6deed52bull, 0x6deed52cull, 0x6df6bccfull, 0x6df7af74ull, 0x6df7af75ull, 0x6e005d22ull, 0x6e005d23ull,
0x6e04ca47ull, 0x6e54d7e7ull, 0x6e65ca5bull, 0x6e6a6807ull, 0x6e77af74ull, 0x6e77af75ull, 0x6e84ca47ull, 0x6e910e17ull,
0x6edd5121ull, 0x6ee5ca5bull, 0x6ef7af74ull, 0x6ef7af75ull, 0x6f04ca47ull, 0x6f3b6c39ull, 0x6f5d5121ull, 0x6f618dbeull,
0x6f65ca5bull, 0x6f759126ull, 0x6fbd2db6ull, 0x6fbd2db7ull, 0x6fd09b4aull, 0x6fd34f6dull, 0x6fdd5121ull, 0x6fdf6f6full,
0x6fdf6f70ull, 0x6fe5ca5bull, 0x70270c00ull, 0x705b32d2ull, 0x705b32d3ull, 0x705d5121ull, 0x7065ca5bull, 0x706ec433ull,
0x706ec434ull, 0x70a70c00ull, 0x70b0d4b0ull, 0x70b0d4b1ull, 0x70c22e90ull, 0x70c22e91ull, 0x70db32d2ull, 0x70db32d3ull,
0x70e5ca5bull, 0x7107acd2ull, 0x7107acd3ull, 0x7111dcefull, 0x71270c00ull, 0x7165ca5bull, 0x716bf190ull, 0x716bf191ull,
0x7187acd2ull, 0x7187acd3ull, 0x71a70c00ull, 0x71a7dad8ull, 0x71bbd3a5ull, 0x71e5ca5bull, 0x71eec433ull, 0x71eec434ull,
0x72122a80ull, 0x7227dad8ull, 0x723bd3a5ull, 0x72465152ull, 0x72465153ull, 0x7250cf00ull, 0x726ec433ull, 0x726ec434ull,
0x7287b9c0ull, 0x7292df7dull, 0x72c65152ull, 0x72c65153ull, 0x72d0cf00ull, 0x72eec433ull, 0x72eec434ull, 0x72fa8512ull,
0x72fa8513ull, 0x730861cfull, 0x730861d0ull, 0x73121d92ull, 0x73121d93ull, 0x731c9b40ull, 0x7351d18eull, 0x7359c8d8ull,
0x7359c8d9ull, 0x737941e1ull, 0x73828160ull, 0x738861cfull, 0x738861d0ull, 0x73921d92ull, 0x73921d93ull, 0x739d5d2aull,
0x739d5d2bull, 0x73d9c8d8ull, 0x73d9c8d9ull, 0x73fa8512ull, 0x73fa8513ull, 0x74028160ull, 0x740510a2ull, 0x740510a3ull,
0x741d5d2aull, 0x741d5d2bull, 0x74700765ull, 0x747a8512ull, 0x747a8513ull, 0x74828160ull, 0x748510a2ull, 0x748510a3ull,
0x74ac7816ull, 0x74b94462ull, 0x74b94463ull, 0x74f00765ull, 0x75028160ull, 0x75394462ull, 0x75394463ull, 0x753b9301ull,
0x753b9302ull, 0x754e3fbdull, 0x754e3fbeull, 0x7560ec79ull, 0x7560ec7aull, 0x75700765ull, 0x75828160ull, 0x75a321b8ull,
0x75bb9301ull, 0x75bb9302ull, 0x75c9948eull, 0x75c9948full, 0x75ce3fbdull, 0x75ce3fbeull, 0x75f00765ull, 0x76028160ull,
0x762321b8ull, 0x7644e95full, 0x7644e960ull, 0x7649948eull, 0x7649948full, 0x764e3fbdull, 0x764e3fbeull, 0x76a321b8ull,
0x76c4e95full, 0x76c4e960ull, 0x76c9948eull, 0x76c9948full, 0x76ce3fbdull, 0x76ce3fbeull, 0x76f39935ull, 0x76f39936ull,
0x770ebd81ull, 0x7744e95full, 0x7744e960ull, 0x7749948eull, 0x7749948full, 0x774bea26ull, 0x775c414aull, 0x775c414bull,
0x77848b65ull, 0x77848b66ull, 0x77c4e95full, 0x77c4e960ull, 0x77c9948eull, 0x77c9948full, 0x77cbea26ull, 0x77d09555ull,
0x77d3c6aaull, 0x78163989ull, 0x7816398aull, 0x7818ef9cull, 0x7818ef9dull, 0x7844e95full, 0x7844e960ull, 0x78509555ull,
0x787c8f18ull, 0x78969a05ull, 0x7898ef9cull, 0x7898ef9dull, 0x78b14215ull, 0x78b14216ull, 0x78d09555ull, 0x78fe8434ull,
0x78fee4afull, 0x78fee4b0ull, 0x79169a05ull, 0x7918ef9cull, 0x7918ef9dull, 0x79509555ull, 0x79581362ull, 0x79581363ull,
0x79678cc4ull, 0x79678cc5ull, 0x797ee4afull, 0x797ee4b0ull, 0x7998ef9cull, 0x7998ef9dull, 0x79a518d9ull, 0x79a7ebb7ull,
0x79a7ebb8ull, 0x79d09555ull, 0x79eb7c09ull, 0x79fee4afull, 0x79fee4b0ull, 0x7a2518d9ull, 0x7a3ee327ull, 0x7a4b5013ull,
0x7a4b5014ull, 0x7a509555ull, 0x7a7065dbull, 0x7a7065dcull, 0x7a7ee4afull, 0x7a7ee4b0ull, 0x7a9f12a0ull, 0x7a9f12a1ull,
0x7aa8b88eull, 0x7aac5843ull, 0x7aeb209aull, 0x7af065dbull, 0x7af065dcull, 0x7afee4afull, 0x7afee4b0ull, 0x7b1f12a0ull,
0x7b1f12a1ull, 0x7b28b88eull, 0x7b2c5843ull, 0x7b7065dbull, 0x7b7065dcull, 0x7b74d267ull, 0x7b7ee4afull, 0x7b7ee4b0ull,
0x7b9a39baull, 0x7b9f12a0ull, 0x7b9f12a1ull, 0x7bac5843ull, 0x7beb209aull, 0x7bf4d267ull, 0x7bf97520ull, 0x7c1a39baull,
0x7c2c5843ull, 0x7c305873ull, 0x7c305874ull, 0x7c478610ull, 0x7c478611ull, 0x7c52e6b1ull, 0x7c52e6b2ull, 0x7c59dac7ull,
0x7c948969ull, 0x7c94896aull, 0x7c9a39baull, 0x7ca7b58aull, 0x7cd2e6b1ull, 0x7cd2e6b2ull, 0x7cd9dac7ull, 0x7cee147full,
0x7d1a39baull, 0x7d27b58aull, 0x7d40c828ull, 0x7d40c829ull, 0x7d5137ddull, 0x7d5137deull, 0x7d6ab58bull, 0x7d9be934ull,
0x7da7b58aull, 0x7dc0c828ull, 0x7dc0c829ull, 0x7dd137ddull, 0x7dd137deull, 0x7deab58bull, 0x7e27b58aull, 0x7e40c828ull,
0x7e40c829ull, 0x7e434f5full, 0x7e434f60ull, 0x7e5137ddull, 0x7e5137deull, 0x7e6ab58bull, 0x7e9b1177ull, 0x7e9c5512ull,
0x7e9c5513ull, 0x7ea7b58aull, 0x7ec34f5full, 0x7ec34f60ull, 0x7eeab58bull, 0x7efb5ac7ull, 0x7efb5ac8ull, 0x7f274a7bull,
0x7f27b58aull, 0x7f42e381ull, 0x7f51a2ecull, 0x7f51a2edull, 0x7f667edaull, 0x7f6ab58bull,
};
}  // namespace hard
#endif
