/* Reference copy of the filter tables libsamplerate 0.2.2 publishes (BSD 2-clause,
   Copyright (c) Erik de Castro Lopo). The checks compare the implementation with these. */
#pragma once
static const int golden_fast_inc = 128, golden_fast_len = 2464;
static const float golden_fast[] = {
 0.831472397f, 0.831413984f, 0.831238925f, 0.830947161f, 0.830538809f, 0.830013931f, 0.829372704f, 0.828615308f,
 0.827741861f, 0.826752663f, 0.82564795f, 0.824428022f, 0.823093116f, 0.821643651f, 0.820079923f, 0.81840241f,
 0.816611528f, 0.814707696f, 0.81269145f, 0.810563266f, 0.808323681f, 0.805973291f, 0.803512752f, 0.80094254f,
 0.79826349f, 0.795476139f, 0.79258126f, 0.78957963f, 0.786471963f, 0.783259034f, 0.779941738f, 0.776520848f,
 0.77299726f, 0.769371867f, 0.765645564f, 0.761819303f, 0.757894158f, 0.753870964f, 0.749750853f, 0.745534778f,
 0.741223931f, 0.736819267f, 0.732322037f, 0.727733254f, 0.723054111f, 0.718285799f, 0.71342957f, 0.708486557f,
 0.703458011f, 0.698345244f, 0.693149507f, 0.687872112f, 0.682514429f, 0.677077711f, 0.671563387f, 0.665972769f,
 0.660307288f, 0.654568315f, 0.648757398f, 0.64287585f, 0.636925161f, 0.63090682f, 0.624822319f, 0.618673205f,
 0.612460911f, 0.606187046f, 0.599853098f, 0.593460619f, 0.587011278f, 0.580506504f, 0.573948026f, 0.567337394f,
 0.560676157f, 0.553966045f, 0.547208607f, 0.540405571f, 0.533558488f, 0.526669085f, 0.519739032f, 0.512769938f,
 0.505763531f, 0.498721451f, 0.491645426f, 0.484537125f, 0.477398276f, 0.47023055f, 0.463035673f, 0.455815315f,
 0.448571235f, 0.441305101f, 0.434018672f, 0.426713616f, 0.419391662f, 0.412054509f, 0.404703915f, 0.397341549f,
 0.38996914f, 0.382588387f, 0.375200987f, 0.36780864f, 0.360413074f, 0.353015959f, 0.345618993f, 0.338223815f,
 0.330832183f, 0.323445708f, 0.316066056f, 0.308694929f, 0.301333934f, 0.293984711f, 0.286648929f, 0.279328197f,
 0.272024125f, 0.264738321f, 0.257472366f, 0.250227839f, 0.243006364f, 0.23580946f, 0.228638679f, 0.221495569f,
 0.214381635f, 0.207298413f, 0.200247377f, 0.193230018f, 0.186247811f, 0.179302201f, 0.172394618f, 0.165526494f,
 0.158699229f, 0.151914224f, 0.145172834f, 0.138476416f, 0.131826311f, 0.125223845f, 0.118670315f, 0.112167001f,
 0.105715163f, 0.0993160456f, 0.0929708779f, 0.0866808668f, 0.0804471821f, 0.0742710084f, 0.0681534708f, 0.0620957017f,
 0.0560987964f, 0.0501638353f, 0.04429188f, 0.0384839587f, 0.0327410884f, 0.0270642564f, 0.021454433f, 0.0159125607f,
 0.0104395598f, 0.00503632985f, -0.000296256272f, -0.00555734802f, -0.0107461195f, -0.0158617683f, -0.0209035166f, -0.0258706119f,
 -0.0307623241f, -0.0355779529f, -0.0403168164f, -0.0449782573f, -0.049561657f, -0.054066401f, -0.0584919155f, -0.0628376529f,
 -0.067103073f, -0.0712876841f, -0.0753910094f, -0.0794126019f, -0.0833520219f, -0.087208882f, -0.0909828097f, -0.0946734548f,
 -0.0982804894f, -0.101803631f, -0.105242595f, -0.108597144f, -0.111867063f, -0.115052149f, -0.118152246f, -0.121167205f,
 -0.124096915f, -0.126941279f, -0.129700243f, -0.13237375f, -0.134961799f, -0.137464404f, -0.139881596f, -0.142213419f,
 -0.144459993f, -0.146621391f, -0.148697779f, -0.150689304f, -0.152596131f, -0.154418498f, -0.156156629f, -0.157810777f,
 -0.159381211f, -0.160868242f, -0.1622722f, -0.163593426f, -0.164832294f, -0.16598919f, -0.167064548f, -0.168058798f,
 -0.168972403f, -0.16980584f, -0.170559615f, -0.171234265f, -0.171830311f, -0.172348335f, -0.172788918f, -0.17315267f,
 -0.173440218f, -0.173652217f, -0.173789307f, -0.173852205f, -0.173841581f, -0.173758179f, -0.173602745f, -0.173376009f,
 -0.173078761f, -0.172711775f, -0.172275901f, -0.171771914f, -0.171200678f, -0.170563057f, -0.169859901f, -0.169092119f,
 -0.168260589f, -0.167366236f, -0.166409999f, -0.165392801f, -0.164315611f, -0.163179398f, -0.161985129f, -0.160733804f,
 -0.159426436f, -0.158064023f, -0.156647608f, -0.155178219f, -0.1536569f, -0.152084708f, -0.150462702f, -0.148791984f,
 -0.147073612f, -0.145308673f, -0.143498287f, -0.141643539f, -0.139745563f, -0.137805447f, -0.135824353f, -0.133803383f,
 -0.131743684f, -0.129646406f, -0.127512679f, -0.125343651f, -0.123140492f, -0.120904341f, -0.11863637f, -0.116337731f,
 -0.114009596f, -0.111653119f, -0.10926947f, -0.106859826f, -0.104425341f, -0.101967186f, -0.0994865298f, -0.0969845429f,
 -0.0944623873f, -0.0919212177f, -0.0893622115f, -0.086786516f, -0.0841952935f, -0.0815896913f, -0.0789708719f, -0.0763399675f,
 -0.0736981258f, -0.0710464865f, -0.0683861822f, -0.0657183379f, -0.0630440712f, -0.0603645034f, -0.0576807447f, -0.054993894f,
 -0.0523050465f, -0.0496152937f, -0.0469257124f, -0.044237379f, -0.0415513553f, -0.0388686955f, -0.0361904465f, -0.0335176438f,
 -0.0308513176f, -0.0281924848f, -0.0255421512f, -0.0229013152f, -0.0202709604f, -0.0176520627f, -0.015045586f, -0.0124524804f,
 -0.00987368636f, -0.00731013203f, -0.00476273196f, -0.00223238859f, 0.000280008535f, 0.00277358294f, 0.00524747185f, 0.00770082558f,
 0.0101328092f, 0.0125426017f, 0.0149293942f, 0.0172923952f, 0.0196308289f, 0.0219439287f, 0.0242309477f, 0.0264911558f,
 0.0287238322f, 0.0309282765f, 0.0331038013f, 0.0352497399f, 0.0373654366f, 0.0394502506f, 0.0415035672f, 0.0435247719f,
 0.0455132872f, 0.0474685319f, 0.0493899547f, 0.0512770154f, 0.0531291962f, 0.0549459904f, 0.0567269139f, 0.0584714934f,
 0.0601792783f, 0.0618498325f, 0.063482739f, 0.0650776029f, 0.0666340366f, 0.0681516677f, 0.0696301609f, 0.071069181f,
 0.0724684149f, 0.0738275722f, 0.0751463696f, 0.076424554f, 0.0776618868f, 0.0788581297f, 0.0800130814f, 0.0811265633f,
 0.0821983963f, 0.0832284167f, 0.0842165053f, 0.0851625353f, 0.0860664099f, 0.0869280323f, 0.0877473429f, 0.0885242894f,
 0.0892588422f, 0.0899509862f, 0.0906007141f, 0.0912080407f, 0.0917730182f, 0.0922956765f, 0.0927760899f, 0.093214348f,
 0.09361054f, 0.0939647853f, 0.094277218f, 0.0945479795f, 0.0947772339f, 0.0949651599f, 0.0951119512f, 0.0952178165f,
 0.0952829719f, 0.0953076631f, 0.0952921435f, 0.0952366665f, 0.09514153f, 0.0950070247f, 0.0948334485f, 0.0946211368f,
 0.0943704173f, 0.0940816477f, 0.0937551782f, 0.0933913961f, 0.0929906815f, 0.0925534368f, 0.0920800641f, 0.0915710032f,
 0.0910266861f, 0.0904475451f, 0.0898340568f, 0.0891866758f, 0.0885058865f, 0.0877921879f, 0.0870460644f, 0.0862680376f,
 0.0854586214f, 0.0846183524f, 0.0837477595f, 0.082847394f, 0.0819178075f, 0.0809595734f, 0.0799732581f, 0.0789594427f,
 0.0779187158f, 0.0768516734f, 0.0757589117f, 0.0746410415f, 0.0734986812f, 0.0723324418f, 0.0711429641f, 0.0699308813f,
 0.0686968192f, 0.0674414262f, 0.0661653504f, 0.0648692399f, 0.0635537654f, 0.0622195676f, 0.0608673245f, 0.0594976991f,
 0.0581113622f, 0.0567089878f, 0.0552912466f, 0.0538588203f, 0.0524123907f, 0.0509526394f, 0.0494802445f, 0.0479958914f,
 0.0465002656f, 0.0449940562f, 0.0434779413f, 0.0419526137f, 0.0404187553f, 0.0388770513f, 0.0373281837f, 0.0357728377f,
 0.0342116952f, 0.0326454341f, 0.0310747325f, 0.0295002684f, 0.0279227141f, 0.0263427421f, 0.0247610174f, 0.0231782068f,
 0.0215949696f, 0.020011967f, 0.0184298512f, 0.0168492701f, 0.0152708711f, 0.0136952959f, 0.0121231778f, 0.01055515f,
 0.0089918375f, 0.0074338601f, 0.00588183245f, 0.00433636317f, 0.00279805437f, 0.00126750208f, -0.000254703977f, -0.00176798133f,
 -0.00327175413f, -0.00476545375f, -0.00624851929f, -0.00772039639f, -0.00918053929f, -0.0106284106f, -0.0120634791f, -0.0134852231f,
 -0.0148931295f, -0.0162866935f, -0.0176654179f, -0.0190288164f, -0.0203764103f, -0.0217077304f, -0.0230223164f, -0.0243197177f,
 -0.0255994927f, -0.0268612131f, -0.0281044543f, -0.0293288063f, -0.0305338688f, -0.031719245f, -0.0328845605f, -0.0340294428f,
 -0.0351535305f, -0.0362564698f, -0.037337929f, -0.0383975729f, -0.0394350886f, -0.0404501706f, -0.0414425172f, -0.0424118452f,
 -0.0433578826f, -0.0442803651f, -0.045179043f, -0.0460536703f, -0.0469040237f, -0.0477298796f, -0.0485310368f, -0.0493072979f,
 -0.0500584766f, -0.0507844016f, -0.0514849089f, -0.0521598496f, -0.0528090857f, -0.0534324907f, -0.0540299416f, -0.0546013415f,
 -0.0551465936f, -0.0556656159f, -0.0561583377f, -0.0566246994f, -0.0570646487f, -0.0574781485f, -0.0578651763f, -0.0582257137f,
 -0.0585597605f, -0.0588673167f, -0.0591484047f, -0.0594030507f, -0.0596312918f, -0.0598331802f, -0.0600087792f, -0.0601581521f,
 -0.0602813885f, -0.0603785738f, -0.0604498088f, -0.0604952127f, -0.0605149008f, -0.0605090111f, -0.0604776777f, -0.0604210608f,
 -0.0603393167f, -0.060232617f, -0.0601011403f, -0.0599450804f, -0.0597646311f, -0.0595600046f, -0.0593314134f, -0.0590790883f,
 -0.0588032566f, -0.0585041642f, -0.0581820607f, -0.0578372069f, -0.0574698672f, -0.057080321f, -0.0566688441f, -0.0562357306f,
 -0.0557812788f, -0.0553057902f, -0.0548095815f, -0.0542929694f, -0.053756278f, -0.0531998388f, -0.0526239946f, -0.0520290881f,
 -0.0514154658f, -0.0507834926f, -0.0501335263f, -0.0494659357f, -0.0487810969f, -0.0480793826f, -0.0473611802f, -0.0466268808f,
 -0.0458768718f, -0.0451115556f, -0.0443313308f, -0.0435366072f, -0.0427277908f, -0.0419052951f, -0.0410695374f, -0.0402209386f,
 -0.0393599235f, -0.0384869203f, -0.0376023501f, -0.0367066525f, -0.0358002558f, -0.0348835997f, -0.0339571238f, -0.0330212601f,
 -0.0320764594f, -0.0311231613f, -0.0301618092f, -0.0291928481f, -0.0282167252f, -0.0272338856f, -0.0262447782f, -0.0252498481f,
 -0.0242495444f, -0.0232443158f, -0.0222346056f, -0.0212208647f, -0.0202035364f, -0.0191830657f, -0.018159898f, -0.0171344746f,
 -0.0161072407f, -0.0150786312f, -0.0140490886f, -0.0130190477f, -0.0119889425f, -0.0109592052f, -0.009930267f, -0.00890255347f,
 -0.00787648931f, -0.00685249642f, -0.00583099341f, -0.0048123952f, -0.0037971139f, -0.00278555788f, -0.00177813193f, -0.000775236986f,
 0.000222730145f, 0.00121537654f, 0.00220231363f, 0.00318315718f, 0.00415752735f, 0.0051250495f, 0.00608535344f, 0.00703807361f,
 0.00798285007f, 0.00891932752f, 0.00984715577f, 0.0107659921f, 0.0116754957f, 0.0125753349f, 0.013465181f, 0.0143447146f,
 0.0152136181f, 0.0160715822f, 0.0169183053f, 0.0177534875f, 0.0185768418f, 0.0193880796f, 0.0201869272f, 0.0209731106f,
 0.0217463672f, 0.0225064382f, 0.0232530739f, 0.0239860285f, 0.0247050673f, 0.0254099574f, 0.0261004791f, 0.0267764162f,
 0.0274375584f, 0.0280837063f, 0.0287146661f, 0.0293302499f, 0.0299302805f, 0.030514583f, 0.0310829971f, 0.0316353627f,
 0.0321715325f, 0.032691367f, 0.0331947282f, 0.0336814895f, 0.0341515355f, 0.0346047506f, 0.0350410342f, 0.0354602933f,
 0.0358624309f, 0.0362473726f, 0.0366150439f, 0.0369653814f, 0.0372983217f, 0.0376138203f, 0.0379118323f, 0.0381923206f,
 0.0384552553f, 0.0387006253f, 0.0389284082f, 0.0391386077f, 0.0393312164f, 0.0395062529f, 0.0396637283f, 0.0398036651f,
 0.0399261005f, 0.040031068f, 0.0401186198f, 0.0401888005f, 0.0402416773f, 0.0402773097f, 0.040295776f, 0.0402971543f,
 0.0402815379f, 0.0402490124f, 0.0401996821f, 0.0401336551f, 0.040051043f, 0.0399519689f, 0.039836552f, 0.0397049338f,
 0.0395572484f, 0.0393936373f, 0.0392142572f, 0.0390192643f, 0.0388088152f, 0.0385830812f, 0.0383422375f, 0.038086459f,
 0.0378159359f, 0.0375308506f, 0.0372314043f, 0.0369177908f, 0.0365902185f, 0.0362489f, 0.0358940437f, 0.0355258696f,
 0.0351446047f, 0.0347504728f, 0.0343437083f, 0.0339245498f, 0.0334932283f, 0.0330499969f, 0.0325951017f, 0.0321287923f,
 0.0316513218f, 0.031162953f, 0.0306639448f, 0.0301545635f, 0.0296350755f, 0.0291057546f, 0.0285668708f, 0.0280187018f,
 0.0274615251f, 0.0268956237f, 0.0263212807f, 0.0257387795f, 0.0251484104f, 0.0245504584f, 0.0239452198f, 0.0233329833f,
 0.022714043f, 0.0220886972f, 0.02145724f, 0.0208199695f, 0.0201771837f, 0.0195291825f, 0.0188762676f, 0.018218739f,
 0.0175568946f, 0.0168910399f, 0.016221473f, 0.0155484974f, 0.0148724141f, 0.0141935246f, 0.013512129f, 0.0128285279f,
 0.0121430214f, 0.0114559084f, 0.0107674878f, 0.0100780549f, 0.0093879085f, 0.0086973412f, 0.00800664816f, 0.0073161209f,
 0.00662604999f, 0.00593672553f, 0.00524843344f, 0.00456145918f, 0.00387608679f, 0.00319259707f, 0.00251126871f, 0.0018323788f,
 0.00115620112f, 0.000483007636f, -0.000186932826f, -0.000853353878f, -0.00151599222f, -0.00217458722f, -0.00282888138f, -0.00347862067f,
 -0.00412355363f, -0.00476343278f, -0.00539801316f, -0.00602705451f, -0.00665031886f, -0.00726757292f, -0.00787858665f, -0.00848313328f,
 -0.00908099208f, -0.00967194233f, -0.0102557717f, -0.0108322697f, -0.0114012295f, -0.0119624501f, -0.012515733f, -0.0130608864f,
 -0.0135977203f, -0.0141260512f, -0.0146456994f, -0.0151564898f, -0.0156582519f, -0.0161508191f, -0.0166340321f, -0.0171077326f,
 -0.0175717715f, -0.0180259999f, -0.018470278f, -0.0189044662f, -0.0193284359f, -0.0197420586f, -0.0201452151f, -0.0205377843f,
 -0.0209196564f, -0.021290727f, -0.0216508918f, -0.0220000558f, -0.0223381277f, -0.0226650219f, -0.0229806583f, -0.0232849587f,
 -0.0235778559f, -0.0238592811f, -0.0241291765f, -0.0243874881f, -0.0246341638f, -0.0248691607f, -0.0250924379f, -0.0253039636f,
 -0.025503708f, -0.0256916452f, -0.0258677602f, -0.0260320362f, -0.0261844657f, -0.0263250452f, -0.0264537763f, -0.0265706647f,
 -0.0266757254f, -0.0267689694f, -0.0268504228f, -0.02692011f, -0.0269780643f, -0.0270243175f, -0.0270589143f, -0.0270818975f,
 -0.0270933174f, -0.0270932317f, -0.0270816982f, -0.0270587802f, -0.0270245466f, -0.0269790702f, -0.026922429f, -0.0268547051f,
 -0.0267759822f, -0.0266863536f, -0.0265859123f, -0.0264747553f, -0.0263529867f, -0.0262207109f, -0.0260780416f, -0.0259250924f,
 -0.0257619787f, -0.0255888253f, -0.0254057553f, -0.025212897f, -0.0250103865f, -0.024798356f, -0.0245769452f, -0.0243462995f,
 -0.0241065603f, -0.0238578804f, -0.0236004088f, -0.0233343001f, -0.0230597127f, -0.0227768086f, -0.0224857479f, -0.0221866984f,
 -0.0218798276f, -0.0215653069f, -0.0212433077f, -0.020914007f, -0.0205775816f, -0.0202342104f, -0.019884076f, -0.0195273627f,
 -0.0191642549f, -0.0187949408f, -0.0184196085f, -0.0180384479f, -0.0176516529f, -0.0172594152f, -0.0168619286f, -0.0164593924f,
 -0.0160520002f, -0.0156399515f, -0.0152234454f, -0.0148026822f, -0.0143778613f, -0.0139491856f, -0.0135168554f, -0.0130810747f,
 -0.0126420455f, -0.0121999709f, -0.0117550548f, -0.0113075012f, -0.0108575122f, -0.0104052937f, -0.00995104667f, -0.00949497707f,
 -0.00903728511f, -0.00857817661f, -0.00811785087f, -0.00765651138f, -0.00719435886f, -0.00673159352f, -0.00626841513f, -0.00580502255f,
 -0.00534161273f, -0.0048783836f, -0.00441553025f, -0.00395324687f, -0.00349172717f, -0.00303116278f, -0.00257174438f, -0.00211366103f,
 -0.00165709993f, -0.00120224699f, -0.000749286381f, -0.00029840038f, 0.000150230393f, 0.000596427417f, 0.00104001397f, 0.00148081558f,
 0.00191865955f, 0.00235337578f, 0.00278479583f, 0.00321275415f, 0.00363708707f, 0.00405763369f, 0.00447423523f, 0.0048867357f,
 0.00529498141f, 0.00569882151f, 0.0060981079f, 0.00649269484f, 0.00688243937f, 0.00726720225f, 0.00764684519f, 0.00802123547f,
 0.00839024037f, 0.00875373278f, 0.00911158696f, 0.00946368091f, 0.00980989542f, 0.0101501141f, 0.0104842251f, 0.0108121177f,
 0.0111336876f, 0.0114488294f, 0.0117574446f, 0.0120594362f, 0.0123547111f, 0.0126431799f, 0.0129247559f, 0.0131993564f,
 0.0134669011f, 0.0137273148f, 0.0139805237f, 0.014226459f, 0.0144650554f, 0.0146962497f, 0.0149199842f, 0.0151362019f,
 0.0153448526f, 0.0155458869f, 0.0157392602f, 0.0159249324f, 0.0161028653f, 0.0162730217f, 0.0164353754f, 0.0165898949f,
 0.0167365596f, 0.0168753471f, 0.0170062426f, 0.0171292294f, 0.0172443017f, 0.0173514504f, 0.0174506716f, 0.0175419673f,
 0.0176253412f, 0.0177008007f, 0.0177683551f, 0.0178280175f, 0.0178798065f, 0.0179237425f, 0.0179598462f, 0.0179881491f,
 0.0180086773f, 0.0180214643f, 0.0180265494f, 0.0180239677f, 0.0180137642f, 0.0179959834f, 0.0179706756f, 0.0179378893f,
 0.0178976804f, 0.0178501066f, 0.0177952275f, 0.0177331045f, 0.0176638048f, 0.0175873972f, 0.0175039507f, 0.0174135417f,
 0.0173162427f, 0.0172121357f, 0.0171013009f, 0.0169838201f, 0.0168597829f, 0.0167292748f, 0.0165923871f, 0.0164492149f,
 0.0162998494f, 0.0161443911f, 0.0159829389f, 0.0158155914f, 0.0156424567f, 0.0154636353f, 0.0152792372f, 0.0150893703f,
 0.0148941446f, 0.0146936746f, 0.0144880731f, 0.0142774545f, 0.014061938f, 0.0138416411f, 0.0136166839f, 0.0133871874f,
 0.0131532745f, 0.0129150692f, 0.0126726963f, 0.0124262823f, 0.012175953f, 0.0119218389f, 0.0116640665f, 0.0114027672f,
 0.0111380713f, 0.0108701102f, 0.0105990162f, 0.0103249215f, 0.010047961f, 0.00976826716f, 0.00948597398f, 0.00920121744f,
 0.00891413074f, 0.00862485077f, 0.00833351258f, 0.00804025028f, 0.0077452017f, 0.00744850095f, 0.00715028448f, 0.00685068779f,
 0.00654984545f, 0.00624789344f, 0.00594496634f, 0.00564119918f, 0.00533672562f, 0.00503167976f, 0.00472619478f, 0.00442040293f,
 0.00411443738f, 0.003808429f, 0.00350250863f, 0.00319680641f, 0.00289145135f, 0.00258657197f, 0.00228229561f, 0.00197874894f,
 0.00167605735f, 0.00137434504f, 0.00107373565f, 0.000774351065f, 0.000476312329f, 0.00017973916f, -0.00011525007f, -0.000408538268f,
 -0.000700009754f, -0.000989550259f, -0.00127704686f, -0.0015623885f, -0.00184546516f, -0.00212616869f, -0.0024043927f, -0.00268003228f,
 -0.00295298384f, -0.00322314631f, -0.00349041983f, -0.00375470659f, -0.00401591044f, -0.00427393662f, -0.00452869339f, -0.00478009041f,
 -0.00502803875f, -0.00527245225f, -0.00551324571f, -0.00575033762f, -0.00598364742f, -0.00621309597f, -0.00643860735f, -0.00666010799f,
 -0.00687752524f, -0.00709078973f, -0.007299833f, -0.00750459079f, -0.00770499883f, -0.00790099613f, -0.00809252448f, -0.00827952661f,
 -0.00846194942f, -0.00863973983f, -0.00881284755f, -0.00898122694f, -0.00914483145f, -0.00930361915f, -0.00945754908f, -0.00960658211f,
 -0.00975068472f, -0.00988982059f, -0.0100239608f, -0.0101530747f, -0.0102771372f, -0.010396122f, -0.0105100097f, -0.0106187789f,
 -0.0107224127f, -0.0108208973f, -0.0109142177f, -0.0110023655f, -0.0110853314f, -0.0111631099f, -0.0112356972f, -0.0113030924f,
 -0.0113652963f, -0.0114223119f, -0.0114741446f, -0.011520802f, -0.0115622943f, -0.0115986317f, -0.011629831f, -0.0116559062f,
 -0.0116768759f, -0.0116927605f, -0.0117035843f, -0.0117093688f, -0.0117101427f, -0.0117059341f, -0.0116967736f, -0.0116826929f,
 -0.0116637275f, -0.0116399126f, -0.0116112875f, -0.0115778912f, -0.0115397675f, -0.0114969574f, -0.0114495084f, -0.011397467f,
 -0.0113408817f, -0.0112798037f, -0.0112142842f, -0.0111443792f, -0.0110701416f, -0.0109916301f, -0.0109089017f, -0.0108220177f,
 -0.0107310396f, -0.0106360288f, -0.0105370507f, -0.0104341693f, -0.0103274537f, -0.01021697f, -0.0101027889f, -0.00998497941f,
 -0.0098636141f, -0.00973876659f, -0.0096105095f, -0.00947891735f, -0.00934406742f, -0.00920603611f, -0.00906490069f, -0.00892074034f,
 -0.00877363421f, -0.0086236624f, -0.00847090688f, -0.00831544865f, -0.00815737061f, -0.00799675658f, -0.00783368852f, -0.00766825257f,
 -0.00750053301f, -0.00733061461f, -0.00715858396f, -0.00698452676f, -0.00680852961f, -0.00663068006f, -0.00645106426f, -0.00626977067f,
 -0.00608688639f, -0.00590249943f, -0.00571669778f, -0.005529569f, -0.00534120202f, -0.0051516844f, -0.00496110413f, -0.00476955017f,
 -0.00457710912f, -0.00438386993f, -0.00418991968f, -0.00399534591f, -0.00380023546f, -0.00360467588f, -0.00340875331f, -0.00321255415f,
 -0.00301616406f, -0.0028196685f, -0.00262315245f, -0.00242670043f, -0.00223039626f, -0.00203432306f, -0.00183856394f, -0.00164320087f,
 -0.00144831534f, -0.00125398801f, -0.00106029923f, -0.000867327966f, -0.000675152929f, -0.000483851763f, -0.000293501333f, -0.000104177656f,
 8.40442008e-05f, 0.000271090074f, 0.000456886715f, 0.000641361927f, 0.000824444403f, 0.00100606401f, 0.00118615164f, 0.00136463915f,
 0.00154145958f, 0.00171654706f, 0.00188983686f, 0.00206126552f, 0.00223077089f, 0.00239829137f, 0.00256376737f, 0.00272713997f,
 0.00288835214f, 0.00304734753f, 0.0032040712f, 0.00335846981f, 0.00351049122f, 0.00366008468f, 0.00380720035f, 0.00395179028f,
 0.00409380812f, 0.00423320802f, 0.0043699462f, 0.00450398028f, 0.00463526929f, 0.00476377318f, 0.00488945423f, 0.00501227565f,
 0.00513220206f, 0.00524919946f, 0.00536323572f, 0.0054742801f, 0.00558230327f, 0.0056872773f, 0.00578917563f, 0.00588797359f,
 0.00598364789f, 0.00607617619f, 0.00616553845f, 0.00625171559f, 0.00633469084f, 0.00641444745f, 0.00649097096f, 0.00656424928f,
 0.00663427031f, 0.00670102425f, 0.00676450273f, 0.00682469876f, 0.00688160677f, 0.00693522254f, 0.0069855433f, 0.00703256857f,
 0.00707629789f, 0.00711673312f, 0.00715387752f, 0.00718773529f, 0.00721831294f, 0.00724561745f, 0.00726965722f, 0.00729044247f,
 0.00730798487f, 0.0073222965f, 0.00733339228f, 0.00734128663f, 0.0073459968f, 0.00734754046f, 0.00734593719f, 0.00734120701f,
 0.00733337132f, 0.00732245389f, 0.007308478f, 0.00729146926f, 0.00727145374f, 0.00724845938f, 0.0072225146f, 0.00719364965f,
 0.00716189481f, 0.00712728221f, 0.0070898449f, 0.00704961643f, 0.00700663263f, 0.00696092844f, 0.00691254158f, 0.00686150976f,
 0.00680787116f, 0.00675166585f, 0.00669293432f, 0.00663171802f, 0.00656805933f, 0.00650200062f, 0.00643358566f, 0.00636285963f,
 0.00628986722f, 0.00621465454f, 0.00613726769f, 0.00605775462f, 0.00597616285f, 0.00589254079f, 0.00580693781f, 0.0057194028f,
 0.00562998652f, 0.00553873973f, 0.00544571271f, 0.00535095762f, 0.00525452616f, 0.00515647093f, 0.00505684456f, 0.00495569967f,
 0.00485309074f, 0.00474907039f, 0.0046436931f, 0.00453701336f, 0.00442908471f, 0.00431996305f, 0.0042097019f, 0.0040983567f,
 0.00398598285f, 0.00387263531f, 0.00375836925f, 0.00364323985f, 0.00352730229f, 0.00341061247f, 0.00329322508f, 0.00317519554f,
 0.0030565788f, 0.00293743028f, 0.00281780469f, 0.00269775675f, 0.00257734093f, 0.00245661195f, 0.00233562384f, 0.0022144306f,
 0.00209308579f, 0.00197164295f, 0.00185015507f, 0.0017286751f, 0.00160725531f, 0.00148594799f, 0.00136480457f, 0.00124387641f,
 0.00112321449f, 0.00100286899f, 0.000882890017f, 0.000763327f, 0.00064422877f, 0.000525643816f, 0.000407620071f, 0.000290204771f,
 0.000173444729f, 5.73860634e-05f, -5.79256593e-05f, -0.000172445521f, -0.000286129216f, -0.00039893316f, -0.000510814367f, -0.00062173052f,
 -0.000731640088f, -0.000840502267f, -0.000948276778f, -0.00105492433f, -0.00116040627f, -0.00126468472f, -0.00136772252f, -0.00146948348f,
 -0.00156993186f, -0.00166903308f, -0.00176675327f, -0.00186305935f, -0.00195791898f, -0.00205130107f, -0.00214317464f, -0.00223351037f,
 -0.00232227915f, -0.0024094535f, -0.00249500596f, -0.00257891067f, -0.00266114203f, -0.00274167606f, -0.002820489f, -0.0028975585f,
 -0.00297286292f, -0.00304638152f, -0.00311809429f, -0.0031879826f, -0.00325602829f, -0.00332221459f, -0.0033865252f, -0.003448945f,
 -0.00350946002f, -0.00356805627f, -0.00362472213f, -0.00367944571f, -0.00373221631f, -0.00378302485f, -0.00383186224f, -0.0038787208f,
 -0.00392359402f, -0.00396647537f, -0.00400736043f, -0.00404624455f, -0.00408312492f, -0.00411799923f, -0.0041508656f, -0.00418172404f,
 -0.00421057455f, -0.00423741899f, -0.00426225876f, -0.00428509712f, -0.00430593779f, -0.00432478543f, -0.00434164563f, -0.00435652491f,
 -0.00436943024f, -0.00438036956f, -0.0043893517f, -0.00439638644f, -0.00440148404f, -0.00440465566f, -0.00440591294f, -0.0044052694f,
 -0.0044027376f, -0.00439833198f, -0.00439206744f, -0.00438395981f, -0.00437402539f, -0.00436228048f, -0.00434874371f, -0.00433343276f,
 -0.00431636674f, -0.00429756567f, -0.0042770491f, -0.00425483845f, -0.00423095515f, -0.00420542108f, -0.00417825906f, -0.0041494919f,
 -0.00411914382f, -0.00408723857f, -0.00405380083f, -0.00401885668f, -0.00398243126f, -0.00394455064f, -0.00390524208f, -0.00386453234f,
 -0.00382244913f, -0.00377902016f, -0.00373427384f, -0.00368823926f, -0.00364094507f, -0.00359242107f, -0.00354269682f, -0.00349180237f,
 -0.00343976845f, -0.00338662555f, -0.00333240442f, -0.00327713694f, -0.00322085386f, -0.0031635873f, -0.00310536893f, -0.00304623088f,
 -0.00298620574f, -0.00292532565f, -0.00286362297f, -0.00280113099f, -0.00273788208f, -0.0026739093f, -0.00260924594f, -0.00254392461f,
 -0.00247797882f, -0.00241144141f, -0.00234434591f, -0.0022767256f, -0.00220861332f, -0.00214004237f, -0.00207104627f, -0.00200165762f,
 -0.00193190994f, -0.00186183583f, -0.00179146824f, -0.00172084011f, -0.00164998393f, -0.00157893228f, -0.00150771753f, -0.00143637194f,
 -0.00136492751f, -0.00129341614f, -0.00122186937f, -0.00115031877f, -0.00107879541f, -0.00100733049f, -0.000935954566f, -0.000864698202f,
 -0.000793591549f, -0.000722664525f, -0.000651946815f, -0.000581467699f, -0.000511256221f, -0.000441340962f, -0.000371750328f, -0.000302512286f,
 -0.000233654471f, -0.000165204139f, -9.71881818e-05f, -2.96330927e-05f, 3.74350311e-05f, 0.000103990496f, 0.000170008003f, 0.000235462707f,
 0.000300330168f, 0.000364586391f, 0.000428207859f, 0.000491171377f, 0.000553454447f, 0.000615034776f, 0.000675890711f, 0.000736001064f,
 0.000795344997f, 0.000853902369f, 0.000911653391f, 0.000968578854f, 0.00102465996f, 0.00107987842f, 0.00113421667f, 0.00118765736f,
 0.00124018395f, 0.00129178027f, 0.00134243059f, 0.00139212003f, 0.00144083379f, 0.00148855802f, 0.00153527933f, 0.00158098456f,
 0.00162566151f, 0.00166929839f, 0.0017118837f, 0.00175340695f, 0.00179385778f, 0.00183322676f, 0.00187150459f, 0.00190868275f,
 0.00194475334f, 0.0019797089f, 0.00201354269f, 0.00204624818f, 0.00207781978f, 0.00210825191f, 0.00213754014f, 0.00216568029f,
 0.00219266862f, 0.00221850234f, 0.00224317866f, 0.00226669549f, 0.00228905142f, 0.00231024553f, 0.00233027758f, 0.00234914734f,
 0.00236685551f, 0.00238340325f, 0.00239879219f, 0.00241302419f, 0.00242610229f, 0.00243802927f, 0.00244880887f, 0.00245844503f,
 0.00246694265f, 0.00247430615f, 0.00248054159f, 0.00248565455f, 0.00248965155f, 0.00249253935f, 0.0024943254f, 0.00249501737f,
 0.00249462319f, 0.0024931517f, 0.00249061198f, 0.00248701288f, 0.00248236465f, 0.0024766773f, 0.00246996153f, 0.00246222806f,
 0.0024534883f, 0.00244375365f, 0.00243303669f, 0.00242134929f, 0.00240870425f, 0.00239511486f, 0.00238059391f, 0.00236515561f,
 0.00234881369f, 0.00233158236f, 0.00231347606f, 0.0022945099f, 0.00227469858f, 0.00225405791f, 0.00223260303f, 0.00221034978f,
 0.00218731468f, 0.00216351356f, 0.0021389632f, 0.00211367989f, 0.00208768109f, 0.00206098356f, 0.00203360454f, 0.00200556149f,
 0.0019768721f, 0.00194755394f, 0.00191762508f, 0.00188710343f, 0.00185600726f, 0.00182435464f, 0.00179216394f, 0.00175945368f,
 0.00172624248f, 0.00169254874f, 0.00165839132f, 0.00162378885f, 0.00158876018f, 0.00155332417f, 0.00151749968f, 0.00148130546f,
 0.00144476059f, 0.00140788394f, 0.00137069437f, 0.00133321085f, 0.00129545224f, 0.00125743728f, 0.00121918495f, 0.00118071388f,
 0.00114204292f, 0.00110319071f, 0.00106417586f, 0.00102501677f, 0.000985731953f, 0.000946339744f, 0.00090685836f, 0.000867306022f,
 0.000827700715f, 0.000788060308f, 0.000748402614f, 0.000708745269f, 0.000669105735f, 0.000629501417f, 0.000589949486f, 0.000550466939f,
 0.000511070655f, 0.000471777399f, 0.000432603556f, 0.00039356554f, 0.000354679447f, 0.000315961195f, 0.00027742653f, 0.000239090936f,
 0.000200969735f, 0.000163078017f, 0.000125430612f, 8.80421503e-05f, 5.09270321e-05f, 1.40993952e-05f, -2.24268533e-05f, -5.86380556e-05f,
 -9.45208085e-05f, -0.000130061977f, -0.000165248654f, -0.000200068243f, -0.000234508378f, -0.000268556963f, -0.000302202214f, -0.000335432618f,
 -0.000368236884f, -0.000400604069f, -0.00043252352f, -0.00046398479f, -0.000494977867f, -0.000525492826f, -0.000555520295f, -0.000585050962f,
 -0.00061407598f, -0.000642586674f, -0.000670574838f, -0.000698032381f, -0.00072495162f, -0.000751325162f, -0.000777145906f, -0.000802407158f,
 -0.00082710234f, -0.000851225341f, -0.00087477034f, -0.00089773169f, -0.00092010427f, -0.000941883074f, -0.000963063561f, -0.00098364125f,
 -0.00100361241f, -0.0010229731f, -0.00104172004f, -0.0010598501f, -0.00107736047f, -0.00109424873f, -0.00111051276f, -0.0011261506f,
 -0.00114116061f, -0.00115554163f, -0.00116929261f, -0.00118241273f, -0.00119490176f, -0.0012067596f, -0.00121798622f, -0.00122858223f,
 -0.00123854831f, -0.00124788552f, -0.0012565949f, -0.00126467831f, -0.00127213751f, -0.00127897435f, -0.00128519151f, -0.00129079132f,
 -0.0012957768f, -0.00130015111f, -0.0013039175f, -0.00130707968f, -0.0013096414f, -0.00131160684f, -0.00131298031f, -0.00131376635f,
 -0.00131396984f, -0.00131359557f, -0.00131264899f, -0.00131113536f, -0.00130906049f, -0.0013064302f, -0.00130325044f, -0.00129952747f,
 -0.00129526784f, -0.00129047816f, -0.00128516508f, -0.00127933582f, -0.00127299735f, -0.00126615702f, -0.00125882251f, -0.00125100126f,
 -0.00124270108f, -0.00123393012f, -0.00122469629f, -0.00121500785f, -0.0012048732f, -0.00119430083f, -0.00118329946f, -0.00117187761f,
 -0.00116004434f, -0.00114780851f, -0.00113517919f, -0.00112216559f, -0.00110877689f, -0.00109502254f, -0.00108091184f, -0.00106645445f,
 -0.00105165981f, -0.00103653769f, -0.00102109776f, -0.00100534968f, -0.000989303458f, -0.000972968875f, -0.000956355769f, -0.000939474208f,
 -0.000922334148f, -0.000904945598f, -0.000887318631f, -0.000869463198f, -0.000851389486f, -0.000833107508f, -0.000814627332f, -0.000795959146f,
 -0.000777112902f, -0.000758098729f, -0.000738926698f, -0.000719606818f, -0.000700149103f, -0.000680563506f, -0.000660860096f, -0.000641048653f,
 -0.00062113913f, -0.000601141364f, -0.000581065135f, -0.000560920103f, -0.000540715992f, -0.000520462461f, -0.000500169001f, -0.000479845068f,
 -0.000459500123f, -0.000439143478f, -0.000418784359f, -0.000398431992f, -0.000378095399f, -0.000357783574f, -0.000337505451f, -0.000317269791f,
 -0.000297085324f, -0.000276960636f, -0.000256904197f, -0.000236924403f, -0.000217029519f, -0.000197227695f, -0.000177526977f, -0.000157935268f,
 -0.000138460367f, -0.000119109929f, -9.98914984e-05f, -8.08124896e-05f, -6.18801714e-05f, -4.31016852e-05f, -2.44840357e-05f, -6.03408489e-06f,
 1.22414413e-05f, 3.03359611e-05f, 4.82430369e-05f, 6.59563811e-05f, 8.3469844e-05f, 0.000100777434f, 0.000117873307f, 0.000134751768f,
 0.000151407294f, 0.000167834471f, 0.000184028104f, 0.000199983086f, 0.000215694527f, 0.000231157654f, 0.000246367883f, 0.000261320762f,
 0.000276012026f, 0.000290437514f, 0.000304593326f, 0.00031847565f, 0.000332080846f, 0.000345405453f, 0.000358446123f, 0.000371199741f,
 0.000383663311f, 0.000395834038f, 0.000407709216f, 0.000419286371f, 0.000430563145f, 0.000441537384f, 0.000452207052f, 0.000462570286f,
 0.000472625397f, 0.000482370873f, 0.000491805258f, 0.000500927388f, 0.000509736128f, 0.000518230663f, 0.00052641012f, 0.000534273975f,
 0.000541821704f, 0.000549053075f, 0.000555967854f, 0.000562566041f, 0.000568847812f, 0.000574813399f, 0.000580463267f, 0.000585797941f,
 0.000590818177f, 0.000595524791f, 0.000599918771f, 0.000604001223f, 0.000607773371f, 0.00061123661f, 0.000614392513f, 0.000617242651f,
 0.000619788771f, 0.000622032792f, 0.000623976754f, 0.00062562275f, 0.000626972993f, 0.000628029928f, 0.000628795882f, 0.000629273592f,
 0.000629465678f, 0.000629374932f, 0.000629004266f, 0.000628356647f, 0.000627435278f, 0.000626243243f, 0.000624783861f, 0.000623060507f,
 0.000621076673f, 0.000618835911f, 0.000616341888f, 0.000613598269f, 0.000610608899f, 0.000607377675f, 0.00060390844f, 0.000600205327f,
 0.00059627241f, 0.000592113764f, 0.000587733695f, 0.000583136454f, 0.000578326406f, 0.000573307858f, 0.00056808535f, 0.000562663306f,
 0.000557046384f, 0.000551239005f, 0.000545245945f, 0.0005390718f, 0.000532721286f, 0.000526199176f, 0.000519510184f, 0.0005126592f,
 0.00050565094f, 0.00049849035f, 0.00049118232f, 0.000483731623f, 0.000476143294f, 0.000468422193f, 0.000460573268f, 0.000452601467f,
 0.000444511737f, 0.000436309056f, 0.00042799837f, 0.000419584598f, 0.000411072746f, 0.000402467762f, 0.000393774535f, 0.000384998071f,
 0.000376143202f, 0.000367214903f, 0.000358218036f, 0.00034915749f, 0.000340038066f, 0.000330864626f, 0.000321641972f, 0.000312374876f,
 0.000303068082f, 0.000293726276f, 0.000284354173f, 0.000274956401f, 0.000265537587f, 0.00025610227f, 0.000246655021f, 0.000237200293f,
 0.000227742552f, 0.000218286179f, 0.00020883554f, 0.000199394912f, 0.000189968589f, 0.000180560732f, 0.000171175518f, 0.000161817021f,
 0.000152489287f, 0.000143196274f, 0.00013394194f, 0.000124730097f, 0.000115564588f, 0.000106449123f, 9.73873757e-05f, 8.83829634e-05f,
 7.94394218e-05f, 7.05602215e-05f, 6.17487749e-05f, 5.30084217e-05f, 4.43424251e-05f, 3.57539866e-05f, 2.72462312e-05f, 1.88222148e-05f,
 1.04849159e-05f, 2.23724578e-06f, -5.91796197e-06f, -1.39779477e-05f, -2.19400263e-05f, -2.98015893e-05f, -3.75601048e-05f, -4.52131171e-05f,
 -5.27582488e-05f, -6.01931933e-05f, -6.7515728e-05f, -7.47237063e-05f, -8.18150656e-05f, -8.8787805e-05f, -9.56400254e-05f, -0.000102369886f,
 -0.000108975633f, -0.000115455587f, -0.000121808152f, -0.00012803181f, -0.000134125134f, -0.000140086733f, -0.000145915328f, -0.000151609725f,
 -0.00015716879f, -0.000162591474f, -0.000167876788f, -0.000173023844f, -0.000178031813f, -0.000182899952f, -0.000187627578f, -0.000192214109f,
 -0.000196659021f, -0.000200961847f, -0.00020512224f, -0.000209139864f, -0.000213014515f, -0.000216746004f, -0.000220334259f, -0.000223779265f,
 -0.000227081051f, -0.000230239748f, -0.000233255545f, -0.000236128675f, -0.000238859473f, -0.000241448302f, -0.000243895614f, -0.000246201933f,
 -0.000248367782f, -0.000250393874f, -0.000252280821f, -0.000254029408f, -0.000255640451f, -0.000257114792f, -0.000258453365f, -0.000259657128f,
 -0.00026072716f, -0.000261664507f, -0.000262470305f, -0.000263145746f, -0.000263692054f, -0.000264110538f, -0.000264402508f, -0.000264569331f,
 -0.000264612434f, -0.000264533301f, -0.000264333386f, -0.000264014292f, -0.00026357756f, -0.000263024849f, -0.000262357818f, -0.000261578127f,
 -0.00026068755f, -0.000259687833f, -0.000258580752f, -0.0002573682f, -0.000256051979f, -0.000254634011f, -0.000253116159f, -0.000251500431f,
 -0.000249788747f, -0.000247983116f, -0.000246085518f, -0.000244098017f, -0.000242022666f, -0.000239861503f, -0.000237616652f, -0.000235290194f,
 -0.000232884238f, -0.000230400939f, -0.000227842422f, -0.000225210839f, -0.000222508374f, -0.00021973718f, -0.00021689944f, -0.000213997351f,
 -0.000211033097f, -0.000208008874f, -0.000204926881f, -0.000201789328f, -0.000198598384f, -0.00019535629f, -0.000192065199f, -0.000188727354f,
 -0.000185344907f, -0.00018192007f, -0.000178455026f, -0.000174951914f, -0.000171412947f, -0.000167840248f, -0.000164235986f, -0.000160602271f,
 -0.000156941256f, -0.000153255038f, -0.000149545725f, -0.000145815386f, -0.000142066099f, -0.000138299903f, -0.000134518865f, -0.000130724962f,
 -0.000126920218f, -0.000123106613f, -0.00011928608f, -0.000115460578f, -0.00011163202f, -0.000107802291f, -0.000103973267f, -0.00010014679f,
 -9.63246857e-05f, -9.25087515e-05f, -8.87007482e-05f, -8.49024291e-05f, -8.11155114e-05f, -7.73416759e-05f, -7.35825961e-05f, -6.98399017e-05f,
 -6.61151862e-05f, -6.2410043e-05f, -5.87260038e-05f, -5.50645891e-05f, -5.14272797e-05f, -4.78155343e-05f, -4.42307683e-05f, -4.06743784e-05f,
 -3.71477145e-05f, -3.36521116e-05f, -3.0188854e-05f, -2.67592059e-05f, -2.33643932e-05f, -2.00056093e-05f, -1.66840146e-05f, -1.3400735e-05f,
 -1.01568621e-05f, -6.95345443e-06f, -3.79153585e-06f, -6.72096121e-07f, 2.40390955e-06f, 5.43556007e-06f, 8.42196914e-06f, 1.13622846e-05f,
 1.42556901e-05f, 1.71013999e-05f, 1.98986691e-05f, 2.26467801e-05f, 2.53450562e-05f, 2.79928499e-05f, 3.05895483e-05f, 3.31345764e-05f,
 3.56273922e-05f, 3.80674828e-05f, 4.04543753e-05f, 4.27876221e-05f, 4.50668158e-05f, 4.72915854e-05f, 4.94615779e-05f, 5.15764914e-05f,
 5.36360385e-05f, 5.56399791e-05f, 5.75880949e-05f, 5.94802004e-05f, 6.13161465e-05f, 6.30958093e-05f, 6.4819098e-05f, 6.64859544e-05f,
 6.80963494e-05f, 6.96502684e-05f, 7.11477551e-05f, 7.25888458e-05f, 7.39736424e-05f, 7.53022468e-05f, 7.65748046e-05f, 7.77914756e-05f,
 7.89524565e-05f, 8.00579655e-05f, 8.11082427e-05f, 8.21035646e-05f, 8.30442223e-05f, 8.39305358e-05f, 8.47628398e-05f, 8.55415055e-05f,
 8.62669258e-05f, 8.69395008e-05f, 8.75596743e-05f, 8.81278902e-05f, 8.86446214e-05f, 8.911037e-05f, 8.95256453e-05f, 8.98909784e-05f,
 9.02069223e-05f, 9.04740518e-05f, 9.06929417e-05f, 9.08642032e-05f, 9.0988462e-05f, 9.10663439e-05f, 9.10985036e-05f, 9.10856033e-05f,
 9.1028327e-05f, 9.09273731e-05f, 9.07834401e-05f, 9.05972483e-05f, 9.036954e-05f, 9.01010353e-05f, 8.97925129e-05f, 8.94447148e-05f,
 8.9058427e-05f, 8.86344278e-05f, 8.81735104e-05f, 8.76764752e-05f, 8.71441225e-05f, 8.65772745e-05f, 8.59767388e-05f, 8.53433594e-05f,
 8.46779512e-05f, 8.39813656e-05f, 8.32544247e-05f, 8.24979943e-05f, 8.17129039e-05f, 8.09000194e-05f, 8.00601847e-05f, 7.91942584e-05f,
 7.83030919e-05f, 7.73875508e-05f, 7.64484867e-05f, 7.54867651e-05f, 7.45032303e-05f, 7.34987407e-05f, 7.24741622e-05f, 7.14303314e-05f,
 7.03681144e-05f, 6.92883477e-05f, 6.81918755e-05f, 6.70795416e-05f, 6.59521902e-05f, 6.48106361e-05f, 6.36557161e-05f, 6.24882523e-05f,
 6.13090597e-05f, 6.01189531e-05f, 5.89187293e-05f, 5.77091851e-05f, 5.6491117e-05f, 5.52653037e-05f, 5.403252e-05f, 5.27935335e-05f,
 5.1549101e-05f, 5.02999756e-05f, 4.90468992e-05f, 4.77905996e-05f, 4.65318008e-05f, 4.52712156e-05f, 4.40095464e-05f, 4.27474843e-05f,
 4.14857132e-05f, 4.02249025e-05f, 3.89657107e-05f, 3.7708789e-05f, 3.64547741e-05f, 3.5204288e-05f, 3.39579528e-05f, 3.27163616e-05f,
 3.14801109e-05f, 3.02497774e-05f, 2.9025925e-05f, 2.78091065e-05f, 2.65998606e-05f, 2.53987182e-05f, 2.42061924e-05f, 2.30227834e-05f,
 2.18489804e-05f, 2.06852583e-05f, 1.9532079e-05f, 1.83898919e-05f, 1.72591317e-05f, 1.61402204e-05f, 1.50335663e-05f, 1.39395643e-05f,
 1.28585953e-05f, 1.17910267e-05f, 1.07372143e-05f, 9.69749817e-06f, 8.67220388e-06f, 7.66164703e-06f, 6.66612732e-06f, 5.68593077e-06f,
 4.72133115e-06f, 3.77258766e-06f, 2.83994723e-06f, 1.92364291e-06f, 1.0238947e-06f, 1.40909364e-07f, -7.25119207e-07f, -1.5740103e-06f,
 -2.40559598e-06f, -3.21972084e-06f, -4.01624311e-06f, -4.79503205e-06f, -5.5559708e-06f, -6.29895385e-06f, -7.02388843e-06f, -7.73069405e-06f,
 -8.41930068e-06f, -9.08965285e-06f, -9.74170325e-06f, -1.03754192e-05f, -1.09907769e-05f, -1.15877665e-05f, -1.21663852e-05f, -1.27266449e-05f,
 -1.32685655e-05f, -1.37921788e-05f, -1.42975268e-05f, -1.47846604e-05f, -1.52536422e-05f, -1.57045433e-05f, -1.61374428e-05f, -1.65524343e-05f,
 -1.69496143e-05f, -1.73290919e-05f, -1.76909853e-05f, -1.80354182e-05f, -1.83625252e-05f, -1.86724465e-05f, -1.89653347e-05f, -1.92413463e-05f,
 -1.95006432e-05f, -1.97434019e-05f, -1.9969797e-05f, -2.01800176e-05f, -2.03742529e-05f, -2.05527049e-05f, -2.07155754e-05f, -2.08630772e-05f,
 -2.09954251e-05f, -2.11128408e-05f, -2.12155519e-05f, -2.13037911e-05f, -2.13777912e-05f, -2.14377978e-05f, -2.14840529e-05f, -2.15168093e-05f,
 -2.15363161e-05f, -2.15428354e-05f, -2.15366235e-05f, -2.15179462e-05f, -2.14870688e-05f, -2.14442625e-05f, -2.13897983e-05f, -2.13239491e-05f,
 -2.12469931e-05f, -2.11592105e-05f, -2.10608778e-05f, -2.09522768e-05f, -2.08336933e-05f, -2.0705409e-05f, -2.05677097e-05f, -2.04208809e-05f,
 -2.02652081e-05f, -2.01009789e-05f, -1.99284805e-05f, -1.97479967e-05f, -1.95598168e-05f, -1.93642263e-05f, -1.91615072e-05f, -1.89519487e-05f,
 -1.87358328e-05f, -1.85134413e-05f, -1.82850563e-05f, -1.8050956e-05f, -1.78114205e-05f, -1.75667265e-05f, -1.73171484e-05f, -1.70629592e-05f,
 -1.6804428e-05f, -1.65418223e-05f, -1.62754113e-05f, -1.60054551e-05f, -1.57322156e-05f, -1.54559493e-05f, -1.51769118e-05f, -1.48953532e-05f,
 -1.46115235e-05f, -1.43256666e-05f, -1.40380243e-05f, -1.3748835e-05f, -1.34583333e-05f, -1.31667493e-05f, -1.28743104e-05f, -1.25812403e-05f,
 -1.22877564e-05f, -1.19940751e-05f, -1.17004074e-05f, -1.14069599e-05f, -1.11139343e-05f, -1.0821529e-05f, -1.05299387e-05f, -1.02393524e-05f,
 -9.9499548e-06f, -9.66192601e-06f, -9.37544155e-06f, -9.0906733e-06f, -8.80778771e-06f, -8.52694575e-06f, -8.24830477e-06f, -7.97201665e-06f,
 -7.69822964e-06f, -7.42708653e-06f, -7.15872511e-06f, -6.89327771e-06f, -6.63087303e-06f, -6.37163521e-06f, -6.11568157e-06f, -5.86312717e-06f,
 -5.61407978e-06f, -5.36864445e-06f, -5.12691986e-06f, -4.88900105e-06f, -4.6549776e-06f, -4.4249341e-06f, -4.1989515e-06f, -3.97710528e-06f,
 -3.7594657e-06f, -3.54609961e-06f, -3.33706862e-06f, -3.13242958e-06f, -2.93223547e-06f, -2.73653382e-06f, -2.54536849e-06f, -2.35877906e-06f,
 -2.17679985e-06f, -1.99946203e-06f, -1.8267915e-06f, -1.65881079e-06f, -1.49553773e-06f, -1.33698654e-06f, -1.18316711e-06f, -1.03408547e-06f,
 -8.89743944e-07f, -7.50140885e-07f, -6.15271006e-07f, -4.8512527e-07f, -3.59691086e-07f, -2.38952396e-07f, -1.22889674e-07f, 0.0f,
};
static const int golden_mid_inc = 491, golden_mid_len = 22438;
static const float golden_mid[] = {
 0.91906321f, 0.919057906f, 0.919041991f, 0.919015467f, 0.918978333f, 0.918930531f, 0.918872178f, 0.918803155f,
 0.918723583f, 0.918633401f, 0.91853255f, 0.918421149f, 0.918299139f, 0.918166518f, 0.918023288f, 0.917869508f,
 0.917705119f, 0.917530119f, 0.917344511f, 0.917148411f, 0.916941643f, 0.916724384f, 0.916496515f, 0.916258097f,
 0.916009128f, 0.91574955f, 0.915479481f, 0.915198863f, 0.914907753f, 0.914606035f, 0.914293826f, 0.913971126f,
 0.913637877f, 0.913294196f, 0.912939966f, 0.912575245f, 0.912200034f, 0.911814392f, 0.911418259f, 0.911011636f,
 0.910594642f, 0.910167158f, 0.909729242f, 0.909280956f, 0.908822179f, 0.90835309f, 0.907873511f, 0.907383621f,
 0.906883359f, 0.906372726f, 0.905851722f, 0.905320406f, 0.904778719f, 0.90422672f, 0.90366447f, 0.903091848f,
 0.902508974f, 0.901915848f, 0.90131247f, 0.900698841f, 0.900074959f, 0.899440885f, 0.898796558f, 0.898142099f,
 0.897477448f, 0.896802604f, 0.896117568f, 0.895422459f, 0.894717216f, 0.894001842f, 0.893276393f, 0.892540872f,
 0.891795278f, 0.89103967f, 0.890273988f, 0.889498293f, 0.888712585f, 0.887916923f, 0.887111306f, 0.886295676f,
 0.885470152f, 0.884634733f, 0.88378942f, 0.882934153f, 0.882069111f, 0.881194174f, 0.880309403f, 0.879414856f,
 0.878510475f, 0.877596378f, 0.876672447f, 0.875738859f, 0.874795496f, 0.873842478f, 0.872879803f, 0.871907413f,
 0.870925426f, 0.869933844f, 0.868932605f, 0.867921829f, 0.866901517f, 0.865871668f, 0.864832282f, 0.863783419f,
 0.862725079f, 0.861657321f, 0.860580146f, 0.859493554f, 0.858397603f, 0.857292235f, 0.856177568f, 0.855053604f,
 0.853920341f, 0.852777839f, 0.851626098f, 0.850465119f, 0.84929496f, 0.848115623f, 0.846927106f, 0.84572953f,
 0.844522834f, 0.843307078f, 0.842082262f, 0.840848446f, 0.839605629f, 0.838353872f, 0.837093115f, 0.835823476f,
 0.834544957f, 0.833257556f, 0.831961334f, 0.83065629f, 0.829342484f, 0.828019917f, 0.826688588f, 0.825348616f,
 0.823999941f, 0.822642624f, 0.821276665f, 0.819902122f, 0.818519056f, 0.817127407f, 0.815727293f, 0.814318657f,
 0.812901616f, 0.811476111f, 0.810042262f, 0.808600068f, 0.80714947f, 0.805690646f, 0.804223537f, 0.802748144f,
 0.801264584f, 0.799772859f, 0.798272967f, 0.79676491f, 0.795248806f, 0.793724656f, 0.792192519f, 0.790652335f,
 0.789104164f, 0.787548125f, 0.785984159f, 0.784412324f, 0.782832682f, 0.781245232f, 0.779649973f, 0.778047025f,
 0.776436329f, 0.774818003f, 0.773191988f, 0.771558404f, 0.76991725f, 0.768268585f, 0.766612411f, 0.764948726f,
 0.76327759f, 0.761599123f, 0.759913266f, 0.758220017f, 0.756519556f, 0.754811764f, 0.753096759f, 0.751374543f,
 0.749645233f, 0.747908711f, 0.746165156f, 0.744414568f, 0.742656946f, 0.740892291f, 0.739120722f, 0.737342238f,
 0.735556901f, 0.733764708f, 0.731965721f, 0.730159998f, 0.72834748f, 0.726528287f, 0.724702477f, 0.722870052f,
 0.72103101f, 0.719185412f, 0.717333317f, 0.715474784f, 0.713609815f, 0.711738467f, 0.709860742f, 0.707976699f,
 0.706086338f, 0.704189777f, 0.702287018f, 0.70037806f, 0.698463023f, 0.696541846f, 0.694614649f, 0.692681432f,
 0.690742254f, 0.688797176f, 0.686846197f, 0.684889317f, 0.682926655f, 0.680958211f, 0.678984046f, 0.677004158f,
 0.675018609f, 0.673027456f, 0.67103076f, 0.669028461f, 0.667020738f, 0.665007532f, 0.662988901f, 0.660964906f,
 0.658935547f, 0.656900942f, 0.654861093f, 0.652815998f, 0.650765717f, 0.64871031f, 0.646649837f, 0.644584358f,
 0.642513812f, 0.640438318f, 0.638357878f, 0.636272609f, 0.634182453f, 0.632087529f, 0.629987836f, 0.627883375f,
 0.625774324f, 0.623660624f, 0.621542275f, 0.619419456f, 0.617292106f, 0.615160286f, 0.613023996f, 0.610883415f,
 0.608738422f, 0.606589198f, 0.604435682f, 0.602277994f, 0.600116134f, 0.597950161f, 0.595780075f, 0.593605936f,
 0.591427863f, 0.589245796f, 0.587059855f, 0.58487004f, 0.582676351f, 0.580478966f, 0.578277767f, 0.576072931f,
 0.57386446f, 0.571652353f, 0.569436669f, 0.567217529f, 0.564994872f, 0.562768757f, 0.560539305f, 0.558306515f,
 0.556070387f, 0.553831041f, 0.551588476f, 0.549342692f, 0.547093868f, 0.544841886f, 0.542586923f, 0.54032892f,
 0.538068056f, 0.535804212f, 0.533537507f, 0.53126806f, 0.528995752f, 0.526720762f, 0.52444309f, 0.522162795f,
 0.519879878f, 0.517594457f, 0.515306473f, 0.513016105f, 0.510723233f, 0.508428037f, 0.506130517f, 0.503830731f,
 0.50152868f, 0.499224424f, 0.496918023f, 0.494609535f, 0.49229899f, 0.48998642f, 0.487671882f, 0.485355407f,
 0.483037084f, 0.480716884f, 0.478394926f, 0.476071209f, 0.473745793f, 0.471418709f, 0.469090015f, 0.466759741f,
 0.464427948f, 0.462094694f, 0.45975998f, 0.457423896f, 0.45508647f, 0.452747732f, 0.450407743f, 0.448066533f,
 0.445724159f, 0.443380654f, 0.441036075f, 0.438690484f, 0.436343879f, 0.43399635f, 0.431647897f, 0.429298609f,
 0.426948518f, 0.424597651f, 0.422246069f, 0.419893801f, 0.417540878f, 0.415187389f, 0.412833363f, 0.41047883f,
 0.408123851f, 0.405768454f, 0.4034127f, 0.401056588f, 0.398700237f, 0.396343648f, 0.393986851f, 0.391629905f,
 0.389272869f, 0.386915803f, 0.384558678f, 0.382201612f, 0.379844606f, 0.377487719f, 0.375131011f, 0.372774512f,
 0.370418251f, 0.368062288f, 0.365706652f, 0.363351405f, 0.360996574f, 0.35864222f, 0.356288373f, 0.353935093f,
 0.351582408f, 0.349230349f, 0.346879005f, 0.344528377f, 0.342178524f, 0.339829475f, 0.33748129f, 0.335134f,
 0.332787663f, 0.330442339f, 0.328097999f, 0.325754762f, 0.323412657f, 0.321071684f, 0.318731904f, 0.316393375f,
 0.314056158f, 0.311720252f, 0.309385717f, 0.307052583f, 0.304720938f, 0.302390754f, 0.30006215f, 0.297735095f,
 0.295409679f, 0.293085933f, 0.290763885f, 0.288443595f, 0.286125094f, 0.28380844f, 0.281493664f, 0.279180765f,
 0.276869863f, 0.274560958f, 0.27225408f, 0.269949287f, 0.267646611f, 0.26534608f, 0.263047785f, 0.260751724f,
 0.258457959f, 0.256166488f, 0.253877431f, 0.251590759f, 0.249306515f, 0.247024775f, 0.244745567f, 0.242468923f,
 0.240194887f, 0.237923503f, 0.235654801f, 0.233388841f, 0.231125623f, 0.228865236f, 0.22660768f, 0.224353001f,
 0.222101256f, 0.219852477f, 0.217606708f, 0.215363964f, 0.213124305f, 0.21088776f, 0.208654374f, 0.206424192f,
 0.204197243f, 0.201973557f, 0.19975318f, 0.197536156f, 0.195322514f, 0.193112299f, 0.190905541f, 0.188702285f,
 0.186502561f, 0.184306413f, 0.182113886f, 0.179924995f, 0.177739784f, 0.175558314f, 0.173380584f, 0.171206653f,
 0.169036552f, 0.166870326f, 0.164707989f, 0.1625496f, 0.16039519f, 0.158244789f, 0.15609844f, 0.15395616f,
 0.151818022f, 0.149684012f, 0.147554204f, 0.145428628f, 0.143307298f, 0.141190261f, 0.139077559f, 0.136969209f,
 0.134865269f, 0.132765755f, 0.130670711f, 0.128580153f, 0.126494139f, 0.124412701f, 0.122335851f, 0.120263644f,
 0.1181961f, 0.11613325f, 0.114075147f, 0.112021804f, 0.109973259f, 0.107929543f, 0.105890699f, 0.10385675f,
 0.101827726f, 0.0998036638f, 0.0977846012f, 0.0957705528f, 0.0937615708f, 0.09175767f, 0.0897588879f, 0.0877652541f,
 0.0857768059f, 0.0837935656f, 0.0818155706f, 0.0798428506f, 0.0778754279f, 0.0759133473f, 0.0739566237f, 0.0720052943f,
 0.0700593889f, 0.0681189373f, 0.0661839619f, 0.0642545f, 0.062330585f, 0.0604122356f, 0.0584994853f, 0.0565923601f,
 0.0546908937f, 0.0527951084f, 0.0509050339f, 0.0490207039f, 0.0471421368f, 0.0452693701f, 0.0434024222f, 0.0415413268f,
 0.0396861099f, 0.0378367938f, 0.0359934121f, 0.0341559872f, 0.0323245488f, 0.0304991174f, 0.0286797266f, 0.0268663969f,
 0.025059158f, 0.0232580323f, 0.0214630477f, 0.0196742266f, 0.0178915989f, 0.0161151849f, 0.0143450117f, 0.0125811035f,
 0.0108234854f, 0.00907218084f, 0.00732721435f, 0.00558860973f, 0.00385639118f, 0.00213058153f, 0.000411204819f, -0.00130171585f,
 -0.00300815748f, -0.00470809732f, -0.00640151184f, -0.00808837917f, -0.00976867788f, -0.0114423838f, -0.0131094763f, -0.0147699323f,
 -0.016423732f, -0.0180708524f, -0.0197112728f, -0.0213449709f, -0.0229719281f, -0.0245921221f, -0.0262055323f, -0.0278121382f,
 -0.0294119213f, -0.0310048591f, -0.0325909331f, -0.0341701247f, -0.0357424095f, -0.0373077765f, -0.0388661996f, -0.04041766f,
 -0.0419621468f, -0.0434996299f, -0.0450301021f, -0.0465535372f, -0.0480699204f, -0.0495792329f, -0.0510814562f, -0.0525765792f,
 -0.0540645756f, -0.0555454344f, -0.0570191331f, -0.0584856644f, -0.0599450022f, -0.0613971353f, -0.0628420487f, -0.0642797202f,
 -0.0657101348f, -0.0671332851f, -0.0685491487f, -0.0699577183f, -0.0713589638f, -0.0727528855f, -0.0741394609f, -0.0755186826f,
 -0.0768905282f, -0.0782549828f, -0.079612039f, -0.0809616819f, -0.0823038965f, -0.0836386681f, -0.084965989f, -0.086285837f,
 -0.0875982121f, -0.0889030918f, -0.0902004614f, -0.0914903209f, -0.0927726477f, -0.0940474346f, -0.0953146741f, -0.0965743437f,
 -0.0978264436f, -0.0990709513f, -0.100307867f, -0.101537175f, -0.10275887f, -0.103972934f, -0.105179355f, -0.106378138f,
 -0.107569255f, -0.108752713f, -0.109928489f, -0.111096583f, -0.112256981f, -0.113409683f, -0.114554666f, -0.115691938f,
 -0.116821475f, -0.117943279f, -0.119057342f, -0.120163657f, -0.121262215f, -0.122353002f, -0.123436019f, -0.124511264f,
 -0.125578716f, -0.126638383f, -0.127690256f, -0.12873432f, -0.129770577f, -0.13079901f, -0.131819636f, -0.132832423f,
 -0.133837387f, -0.134834528f, -0.135823816f, -0.136805266f, -0.137778863f, -0.138744608f, -0.139702499f, -0.140652537f,
 -0.141594693f, -0.142528996f, -0.143455431f, -0.144373998f, -0.145284683f, -0.146187484f, -0.147082418f, -0.147969469f,
 -0.148848623f, -0.149719909f, -0.150583297f, -0.151438802f, -0.15228641f, -0.153126135f, -0.153957963f, -0.154781908f,
 -0.155597955f, -0.156406105f, -0.157206371f, -0.157998741f, -0.158783227f, -0.159559816f, -0.160328507f, -0.161089316f,
 -0.161842242f, -0.16258727f, -0.163324416f, -0.164053679f, -0.164775059f, -0.165488556f, -0.166194186f, -0.166891932f,
 -0.167581812f, -0.168263823f, -0.168937951f, -0.169604227f, -0.17026265f, -0.170913205f, -0.171555907f, -0.172190771f,
 -0.172817782f, -0.173436955f, -0.17404829f, -0.174651802f, -0.175247476f, -0.175835326f, -0.176415369f, -0.176987603f,
 -0.177552015f, -0.178108647f, -0.178657472f, -0.179198518f, -0.179731771f, -0.180257261f, -0.180774987f, -0.181284934f,
 -0.181787133f, -0.182281598f, -0.182768315f, -0.183247298f, -0.183718547f, -0.184182093f, -0.184637934f, -0.185086057f,
 -0.185526505f, -0.185959265f, -0.186384335f, -0.186801761f, -0.187211528f, -0.187613636f, -0.188008115f, -0.188394964f,
 -0.188774198f, -0.189145818f, -0.189509839f, -0.189866275f, -0.190215141f, -0.190556437f, -0.190890163f, -0.191216365f,
 -0.191535026f, -0.191846162f, -0.192149788f, -0.192445919f, -0.192734554f, -0.193015724f, -0.193289429f, -0.193555683f,
 -0.193814501f, -0.194065884f, -0.19430986f, -0.194546446f, -0.194775641f, -0.19499746f, -0.195211917f, -0.195419028f,
 -0.195618808f, -0.195811272f, -0.195996433f, -0.196174309f, -0.196344897f, -0.196508244f, -0.196664333f, -0.196813181f,
 -0.196954831f, -0.19708927f, -0.197216526f, -0.197336614f, -0.19744955f, -0.197555348f, -0.197654024f, -0.197745591f,
 -0.197830066f, -0.197907478f, -0.197977826f, -0.198041141f, -0.198097423f, -0.198146701f, -0.198189005f, -0.198224321f,
 -0.198252693f, -0.198274121f, -0.198288634f, -0.198296249f, -0.198296994f, -0.198290855f, -0.198277876f, -0.198258072f,
 -0.198231459f, -0.198198065f, -0.198157892f, -0.198110968f, -0.198057309f, -0.197996929f, -0.197929874f, -0.197856128f,
 -0.197775736f, -0.197688714f, -0.197595075f, -0.19749485f, -0.197388038f, -0.19727467f, -0.197154775f, -0.197028384f,
 -0.19689548f, -0.19675611f, -0.196610302f, -0.196458057f, -0.196299404f, -0.196134359f, -0.195962965f, -0.195785224f,
 -0.195601165f, -0.195410803f, -0.195214167f, -0.195011273f, -0.194802165f, -0.194586828f, -0.194365308f, -0.194137633f,
 -0.193903819f, -0.19366388f, -0.193417847f, -0.193165734f, -0.192907587f, -0.192643419f, -0.192373231f, -0.192097083f,
 -0.191814974f, -0.19152692f, -0.191232979f, -0.190933153f, -0.190627471f, -0.190315947f, -0.189998612f, -0.18967551f,
 -0.189346626f, -0.189012021f, -0.188671708f, -0.188325703f, -0.187974036f, -0.187616736f, -0.187253818f, -0.186885327f,
 -0.186511278f, -0.186131686f, -0.185746595f, -0.185356006f, -0.184959978f, -0.184558511f, -0.184151649f, -0.183739394f,
 -0.183321804f, -0.182898879f, -0.182470649f, -0.18203716f, -0.18159841f, -0.181154445f, -0.180705294f, -0.180250973f,
 -0.179791525f, -0.179326952f, -0.178857297f, -0.178382576f, -0.177902833f, -0.177418098f, -0.176928371f, -0.176433697f,
 -0.175934121f, -0.175429627f, -0.174920291f, -0.174406111f, -0.173887119f, -0.173363343f, -0.172834828f, -0.172301576f,
 -0.171763629f, -0.171221018f, -0.170673773f, -0.170121908f, -0.169565454f, -0.169004455f, -0.168438941f, -0.167868912f,
 -0.167294428f, -0.166715503f, -0.166132167f, -0.16554445f, -0.164952382f, -0.164355993f, -0.163755313f, -0.16315037f,
 -0.162541181f, -0.161927804f, -0.161310241f, -0.160688519f, -0.160062701f, -0.159432784f, -0.158798814f, -0.158160821f,
 -0.157518819f, -0.156872854f, -0.156222954f, -0.155569151f, -0.154911458f, -0.154249921f, -0.15358457f, -0.152915418f,
 -0.152242526f, -0.151565894f, -0.150885567f, -0.150201574f, -0.149513945f, -0.14882271f, -0.148127899f, -0.147429541f,
 -0.146727666f, -0.14602232f, -0.145313501f, -0.144601271f, -0.143885642f, -0.143166661f, -0.142444342f, -0.14171873f,
 -0.14098984f, -0.140257716f, -0.139522389f, -0.138783872f, -0.138042226f, -0.137297451f, -0.136549592f, -0.135798693f,
 -0.135044768f, -0.134287849f, -0.133527964f, -0.132765159f, -0.131999463f, -0.131230891f, -0.130459487f, -0.129685283f,
 -0.128908291f, -0.128128573f, -0.127346143f, -0.126561031f, -0.125773281f, -0.124982901f, -0.124189943f, -0.12339443f,
 -0.122596398f, -0.12179587f, -0.120992884f, -0.120187476f, -0.119379662f, -0.118569486f, -0.117756978f, -0.116942167f,
 -0.116125084f, -0.115305766f, -0.114484236f, -0.113660522f, -0.11283467f, -0.112006702f, -0.111176655f, -0.110344552f,
 -0.109510429f, -0.108674318f, -0.107836254f, -0.106996261f, -0.106154375f, -0.105310626f, -0.104465045f, -0.103617661f,
 -0.102768511f, -0.101917624f, -0.101065032f, -0.100210764f, -0.0993548483f, -0.0984973237f, -0.0976382196f, -0.0967775658f,
 -0.095915392f, -0.0950517282f, -0.0941866115f, -0.0933200717f, -0.0924521387f, -0.0915828422f, -0.090712212f, -0.0898402855f,
 -0.0889670849f, -0.0880926475f, -0.0872170106f, -0.086340189f, -0.0854622275f, -0.0845831558f, -0.0837029964f, -0.082821779f,
 -0.0819395483f, -0.0810563266f, -0.0801721439f, -0.0792870373f, -0.0784010291f, -0.0775141567f, -0.0766264424f, -0.0757379234f,
 -0.0748486295f, -0.0739585981f, -0.0730678439f, -0.0721764117f, -0.0712843239f, -0.0703916177f, -0.0694983155f, -0.0686044544f,
 -0.0677100569f, -0.0668151677f, -0.0659198016f, -0.0650239885f, -0.064127773f, -0.0632311776f, -0.0623342283f, -0.0614369623f,
 -0.0605394021f, -0.0596415848f, -0.0587435365f, -0.057845287f, -0.0569468625f, -0.0560483001f, -0.055149626f, -0.0542508699f,
 -0.0533520617f, -0.0524532311f, -0.0515544042f, -0.0506556146f, -0.049756892f, -0.0488582626f, -0.0479597561f, -0.0470614024f,
 -0.0461632274f, -0.0452652685f, -0.0443675481f, -0.0434700958f, -0.0425729379f, -0.0416761115f, -0.0407796353f, -0.0398835465f,
 -0.0389878675f, -0.0380926318f, -0.0371978655f, -0.0363035947f, -0.0354098491f, -0.0345166624f, -0.033624053f, -0.0327320546f,
 -0.0318406969f, -0.0309500042f, -0.0300600063f, -0.0291707311f, -0.0282822046f, -0.0273944568f, -0.0265075136f, -0.025621403f,
 -0.0247361511f, -0.0238517877f, -0.0229683388f, -0.0220858324f, -0.0212042946f, -0.0203237534f, -0.0194442328f, -0.0185657647f,
 -0.0176883712f, -0.0168120824f, -0.0159369241f, -0.0150629207f, -0.0141901011f, -0.0133184912f, -0.0124481162f, -0.0115790032f,
 -0.0107111782f, -0.00984466728f, -0.00897949655f, -0.00811569113f, -0.00725327712f, -0.00639228011f, -0.00553272618f, -0.00467464048f,
 -0.0038180484f, -0.0029629753f, -0.00210944633f, -0.00125748641f, -0.000407120882f, 0.000441625481f, 0.00128872786f, 0.00213416154f,
 0.00297790184f, 0.00381992408f, 0.00466020405f, 0.00549871754f, 0.00633543963f, 0.00717034703f, 0.00800341554f, 0.00883462001f,
 0.00966393854f, 0.010491346f, 0.0113168191f, 0.0121403355f, 0.0129618691f, 0.0137813995f, 0.0145989014f, 0.0154143516f,
 0.0162277296f, 0.0170390103f, 0.0178481694f, 0.0186551884f, 0.0194600429f, 0.0202627089f, 0.0210631639f, 0.0218613893f,
 0.022657359f, 0.0234510526f, 0.0242424496f, 0.0250315256f, 0.0258182585f, 0.0266026296f, 0.0273846164f, 0.0281641968f,
 0.0289413501f, 0.029716054f, 0.0304882899f, 0.0312580317f, 0.0320252664f, 0.032789968f, 0.0335521176f, 0.0343116932f,
 0.0350686759f, 0.0358230434f, 0.0365747772f, 0.0373238623f, 0.0380702689f, 0.0388139822f, 0.0395549871f, 0.040293254f,
 0.0410287753f, 0.0417615213f, 0.042491477f, 0.0432186238f, 0.0439429432f, 0.0446644165f, 0.045383025f, 0.0460987464f,
 0.0468115695f, 0.0475214683f, 0.0482284278f, 0.0489324331f, 0.049633462f, 0.0503314957f, 0.0510265231f, 0.0517185181f,
 0.0524074733f, 0.0530933626f, 0.0537761711f, 0.0544558838f, 0.0551324822f, 0.0558059514f, 0.0564762726f, 0.0571434312f,
 0.0578074083f, 0.0584681891f, 0.059125755f, 0.0597800948f, 0.0604311898f, 0.0610790253f, 0.0617235824f, 0.0623648502f,
 0.0630028099f, 0.0636374503f, 0.0642687529f, 0.0648967028f, 0.0655212849f, 0.0661424845f, 0.0667602867f, 0.0673746839f,
 0.0679856539f, 0.0685931817f, 0.0691972598f, 0.069797866f, 0.0703949928f, 0.0709886253f, 0.071578756f, 0.0721653551f,
 0.0727484301f, 0.0733279511f, 0.0739039108f, 0.0744762942f, 0.0750450939f, 0.0756102949f, 0.0761718899f, 0.0767298564f,
 0.0772841871f, 0.0778348669f, 0.0783818886f, 0.0789252371f, 0.079464905f, 0.0800008774f, 0.0805331469f, 0.0810616985f,
 0.0815865174f, 0.0821075961f, 0.0826249346f, 0.0831385031f, 0.0836483017f, 0.0841543227f, 0.084656544f, 0.0851549655f,
 0.0856495798f, 0.0861403719f, 0.0866273269f, 0.0871104449f, 0.087589711f, 0.0880651176f, 0.0885366574f, 0.0890043154f,
 0.0894680843f, 0.0899279639f, 0.090383932f, 0.0908359885f, 0.0912841335f, 0.0917283371f, 0.0921686068f, 0.0926049352f,
 0.0930373073f, 0.0934657231f, 0.0938901678f, 0.0943106338f, 0.0947271213f, 0.0951396152f, 0.0955481157f, 0.0959526077f,
 0.0963530913f, 0.0967495665f, 0.0971420109f, 0.0975304246f, 0.0979148075f, 0.0982951447f, 0.0986714363f, 0.0990436748f,
 0.0994118527f, 0.09977597f, 0.100136019f, 0.100491993f, 0.100843884f, 0.101191692f, 0.101535417f, 0.101875044f,
 0.102210574f, 0.102541998f, 0.102869317f, 0.103192531f, 0.103511624f, 0.103826605f, 0.104137458f, 0.104444191f,
 0.104746789f, 0.105045259f, 0.105339594f, 0.105629794f, 0.105915852f, 0.106197767f, 0.106475532f, 0.106749155f,
 0.10701862f, 0.107283942f, 0.107545108f, 0.107802108f, 0.108054958f, 0.108303651f, 0.108548179f, 0.108788542f,
 0.109024748f, 0.109256789f, 0.109484658f, 0.109708369f, 0.109927908f, 0.110143282f, 0.110354491f, 0.110561527f,
 0.110764399f, 0.110963106f, 0.111157641f, 0.111348011f, 0.111534208f, 0.111716248f, 0.111894116f, 0.112067826f,
 0.112237364f, 0.112402745f, 0.112563968f, 0.112721026f, 0.112873927f, 0.11302267f, 0.113167264f, 0.1133077f,
 0.113443986f, 0.113576122f, 0.113704108f, 0.113827959f, 0.11394766f, 0.114063233f, 0.114174664f, 0.11428196f,
 0.114385128f, 0.114484169f, 0.114579089f, 0.114669882f, 0.114756569f, 0.114839137f, 0.114917599f, 0.114991955f,
 0.115062207f, 0.115128368f, 0.115190431f, 0.115248412f, 0.115302309f, 0.115352131f, 0.115397871f, 0.115439549f,
 0.11547716f, 0.115510717f, 0.115540214f, 0.115565673f, 0.115587085f, 0.11560446f, 0.115617804f, 0.115627132f,
 0.11563243f, 0.115633726f, 0.115631014f, 0.115624294f, 0.115613595f, 0.115598902f, 0.115580231f, 0.115557581f,
 0.115530975f, 0.115500405f, 0.115465887f, 0.115427427f, 0.115385033f, 0.115338705f, 0.115288459f, 0.115234293f,
 0.115176231f, 0.115114272f, 0.115048416f, 0.114978686f, 0.114905082f, 0.114827618f, 0.114746295f, 0.114661127f,
 0.114572123f, 0.114479288f, 0.11438264f, 0.114282176f, 0.114177912f, 0.114069857f, 0.113958023f, 0.113842413f,
 0.113723047f, 0.113599919f, 0.113473058f, 0.113342457f, 0.113208137f, 0.113070101f, 0.112928368f, 0.11278294f,
 0.112633832f, 0.112481058f, 0.112324625f, 0.112164535f, 0.112000816f, 0.111833468f, 0.1116625f, 0.111487933f,
 0.111309774f, 0.111128032f, 0.110942721f, 0.110753857f, 0.110561438f, 0.110365495f, 0.110166021f, 0.109963045f,
 0.109756567f, 0.109546602f, 0.109333165f, 0.109116271f, 0.108895928f, 0.108672142f, 0.108444944f, 0.108214326f,
 0.107980318f, 0.107742928f, 0.107502162f, 0.107258037f, 0.107010573f, 0.106759772f, 0.106505662f, 0.106248237f,
 0.105987534f, 0.105723545f, 0.1054563f, 0.105185799f, 0.104912065f, 0.104635112f, 0.104354955f, 0.104071602f,
 0.103785075f, 0.103495382f, 0.103202537f, 0.102906562f, 0.102607466f, 0.102305263f, 0.101999968f, 0.101691604f,
 0.101380177f, 0.101065703f, 0.100748196f, 0.10042768f, 0.100104161f, 0.0997776613f, 0.0994481891f, 0.0991157591f,
 0.0987803936f, 0.0984421074f, 0.0981009156f, 0.0977568328f, 0.0974098742f, 0.097060062f, 0.0967074037f, 0.0963519141f,
 0.0959936157f, 0.0956325233f, 0.0952686518f, 0.0949020237f, 0.0945326462f, 0.0941605419f, 0.0937857181f, 0.0934082046f,
 0.0930280089f, 0.0926451534f, 0.0922596529f, 0.0918715224f, 0.0914807841f, 0.0910874456f, 0.0906915367f, 0.0902930573f,
 0.0898920447f, 0.0894884989f, 0.0890824422f, 0.0886739045f, 0.0882628858f, 0.0878494084f, 0.0874334946f, 0.0870151594f,
 0.0865944177f, 0.0861712918f, 0.0857457966f, 0.0853179544f, 0.0848877802f, 0.0844552815f, 0.0840204954f, 0.0835834295f,
 0.0831440985f, 0.082702525f, 0.0822587237f, 0.0818127245f, 0.0813645348f, 0.0809141695f, 0.0804616511f, 0.0800070092f,
 0.0795502439f, 0.079091385f, 0.0786304474f, 0.0781674534f, 0.077702418f, 0.077235356f, 0.0767662898f, 0.0762952417f,
 0.0758222267f, 0.0753472671f, 0.0748703778f, 0.0743915811f, 0.0739108846f, 0.0734283254f, 0.072943911f, 0.0724576563f,
 0.0719695911f, 0.0714797303f, 0.0709880963f, 0.0704947039f, 0.0699995682f, 0.0695027187f, 0.0690041631f, 0.0685039312f,
 0.0680020303f, 0.0674984977f, 0.0669933334f, 0.0664865747f, 0.0659782216f, 0.0654683113f, 0.0649568513f, 0.0644438714f,
 0.063929379f, 0.0634134039f, 0.0628959537f, 0.0623770617f, 0.0618567429f, 0.0613350123f, 0.0608118959f, 0.0602874048f,
 0.0597615689f, 0.0592343993f, 0.0587059222f, 0.0581761524f, 0.0576451123f, 0.0571128204f, 0.0565792955f, 0.0560445637f,
 0.0555086359f, 0.0549715348f, 0.0544332825f, 0.0538938977f, 0.0533534028f, 0.0528118126f, 0.0522691458f, 0.0517254286f,
 0.0511806794f, 0.0506349131f, 0.050088156f, 0.0495404229f, 0.048991736f, 0.0484421141f, 0.0478915796f, 0.0473401509f,
 0.0467878468f, 0.0462346859f, 0.0456806943f, 0.0451258831f, 0.0445702821f, 0.0440139025f, 0.0434567668f, 0.0428988971f,
 0.0423403122f, 0.0417810306f, 0.0412210748f, 0.0406604633f, 0.0400992148f, 0.0395373479f, 0.0389748886f, 0.0384118482f,
 0.0378482528f, 0.0372841246f, 0.0367194749f, 0.0361543298f, 0.0355887078f, 0.0350226276f, 0.0344561078f, 0.0338891707f,
 0.0333218388f, 0.0327541232f, 0.0321860537f, 0.0316176414f, 0.0310489107f, 0.03047988f, 0.02991057f, 0.0293409992f,
 0.0287711881f, 0.0282011535f, 0.0276309196f, 0.0270605031f, 0.0264899246f, 0.0259192027f, 0.0253483579f, 0.0247774087f,
 0.0242063757f, 0.0236352757f, 0.0230641328f, 0.022492962f, 0.0219217837f, 0.0213506203f, 0.0207794867f, 0.0202084053f,
 0.0196373928f, 0.0190664716f, 0.0184956584f, 0.0179249737f, 0.0173544362f, 0.0167840663f, 0.016213879f, 0.0156438984f,
 0.0150741404f, 0.0145046255f, 0.0139353713f, 0.0133663984f, 0.0127977235f, 0.0122293681f, 0.0116613489f, 0.0110936854f,
 0.0105263973f, 0.00995950215f, 0.00939301867f, 0.00882696547f, 0.00826136209f, 0.00769622577f, 0.00713157654f, 0.00656743161f,
 0.00600380963f, 0.00544072967f, 0.00487820944f, 0.00431626802f, 0.00375492265f, 0.00319419219f, 0.0026340948f, 0.00207464839f,
 0.00151587138f, 0.000957781507f, 0.000400397024f, -0.000156264243f, -0.000712184352f, -0.00126734539f, -0.00182172959f, -0.00237531913f,
 -0.00292809657f, -0.00348004373f, -0.00403114362f, -0.00458137784f, -0.00513072964f, -0.00567918131f, -0.00622671517f, -0.00677331397f,
 -0.00731896097f, -0.00786363799f, -0.00840732921f, -0.00895001553f, -0.00949168112f, -0.0100323092f, -0.0105718821f, -0.0111103831f,
 -0.0116477953f, -0.0121841021f, -0.0127192866f, -0.0132533321f, -0.0137862219f, -0.0143179391f, -0.0148484688f, -0.0153777925f,
 -0.0159058943f, -0.0164327603f, -0.0169583708f, -0.0174827091f, -0.0180057641f, -0.0185275152f, -0.0190479476f, -0.0195670463f,
 -0.0200847927f, -0.0206011757f, -0.0211161748f, -0.0216297768f, -0.0221419651f, -0.0226527248f, -0.0231620409f, -0.0236698966f,
 -0.0241762772f, -0.0246811677f, -0.0251845531f, -0.0256864186f, -0.0261867456f, -0.0266855247f, -0.0271827355f, -0.0276783668f,
 -0.0281724036f, -0.0286648292f, -0.0291556306f, -0.0296447929f, -0.0301323012f, -0.0306181405f, -0.0311022978f, -0.0315847583f,
 -0.032065507f, -0.0325445309f, -0.0330218151f, -0.0334973447f, -0.0339711085f, -0.0344430916f, -0.0349132791f, -0.0353816599f,
 -0.0358482189f, -0.0363129415f, -0.0367758125f, -0.0372368246f, -0.0376959592f, -0.0381532051f, -0.0386085473f, -0.0390619785f,
 -0.0395134762f, -0.0399630368f, -0.0404106453f, -0.0408562832f, -0.0412999429f, -0.0417416133f, -0.0421812758f, -0.0426189266f,
 -0.0430545434f, -0.0434881225f, -0.0439196452f, -0.0443491042f, -0.0447764881f, -0.0452017784f, -0.0456249714f, -0.0460460484f,
 -0.046465002f, -0.046881821f, -0.0472964905f, -0.0477090031f, -0.0481193438f, -0.0485275052f, -0.0489334725f, -0.0493372381f,
 -0.0497387871f, -0.0501381084f, -0.0505351983f, -0.0509300381f, -0.0513226204f, -0.0517129377f, -0.0521009713f, -0.0524867214f,
 -0.0528701693f, -0.0532513075f, -0.0536301285f, -0.0540066175f, -0.0543807708f, -0.0547525734f, -0.0551220179f, -0.0554890931f,
 -0.0558537878f, -0.0562160984f, -0.0565760136f, -0.0569335185f, -0.0572886132f, -0.057641279f, -0.0579915121f, -0.0583393052f,
 -0.0586846471f, -0.0590275303f, -0.0593679436f, -0.0597058795f, -0.0600413345f, -0.0603742898f, -0.0607047491f, -0.0610326938f,
 -0.061358124f, -0.0616810247f, -0.0620013922f, -0.0623192191f, -0.0626344979f, -0.0629472211f, -0.0632573739f, -0.0635649636f,
 -0.0638699681f, -0.0641723871f, -0.0644722134f, -0.0647694394f, -0.0650640577f, -0.0653560609f, -0.0656454414f, -0.0659321994f,
 -0.0662163198f, -0.0664978027f, -0.0667766333f, -0.0670528188f, -0.0673263371f, -0.0675971955f, -0.0678653792f, -0.068130888f,
 -0.0683937073f, -0.0686538443f, -0.0689112917f, -0.0691660345f, -0.0694180652f, -0.0696673915f, -0.0699140057f, -0.070157893f,
 -0.0703990608f, -0.0706374943f, -0.0708731934f, -0.0711061507f, -0.0713363662f, -0.0715638325f, -0.071788542f, -0.0720104948f,
 -0.0722296908f, -0.0724461153f, -0.0726597682f, -0.0728706494f, -0.0730787516f, -0.0732840672f, -0.0734866038f, -0.0736863539f,
 -0.0738833025f, -0.0740774646f, -0.0742688179f, -0.0744573772f, -0.0746431276f, -0.0748260692f, -0.0750062019f, -0.0751835257f,
 -0.0753580257f, -0.0755297095f, -0.0756985694f, -0.0758646056f, -0.076027818f, -0.0761881992f, -0.0763457566f, -0.0765004754f,
 -0.0766523629f, -0.0768014118f, -0.076947622f, -0.0770909935f, -0.0772315264f, -0.0773692206f, -0.0775040686f, -0.0776360705f,
 -0.0777652264f, -0.0778915361f, -0.0780149922f, -0.0781356096f, -0.0782533735f, -0.0783682838f, -0.078480348f, -0.0785895586f,
 -0.0786959231f, -0.078799434f, -0.0789000914f, -0.0789978951f, -0.0790928528f, -0.0791849568f, -0.0792742074f, -0.0793606043f,
 -0.0794441551f, -0.0795248598f, -0.0796027109f, -0.0796777159f, -0.0797498673f, -0.0798191726f, -0.0798856393f, -0.0799492523f,
 -0.0800100267f, -0.0800679624f, -0.080123052f, -0.0801753029f, -0.0802247152f, -0.0802712888f, -0.0803150311f, -0.0803559348f,
 -0.0803940147f, -0.0804292634f, -0.0804616883f, -0.080491282f, -0.0805180594f, -0.080542013f, -0.0805631503f, -0.0805814788f,
 -0.0805969909f, -0.0806096867f, -0.080619581f, -0.080626674f, -0.0806309655f, -0.0806324631f, -0.0806311592f, -0.0806270689f,
 -0.080620192f, -0.0806105286f, -0.0805980861f, -0.0805828646f, -0.0805648714f, -0.0805441067f, -0.0805205852f, -0.0804942921f,
 -0.0804652497f, -0.0804334506f, -0.0803989023f, -0.0803616047f, -0.0803215727f, -0.0802788064f, -0.0802333057f, -0.0801850855f,
 -0.0801341385f, -0.0800804794f, -0.0800241008f, -0.0799650252f, -0.0799032375f, -0.0798387676f, -0.0797715932f, -0.079701744f,
 -0.0796292126f, -0.0795540065f, -0.0794761255f, -0.0793955922f, -0.0793123916f, -0.079226546f, -0.0791380554f, -0.0790469199f,
 -0.0789531618f, -0.0788567662f, -0.0787577555f, -0.0786561295f, -0.0785518959f, -0.078445062f, -0.0783356354f, -0.0782236159f,
 -0.0781090185f, -0.0779918432f, -0.0778721049f, -0.0777498111f, -0.0776249543f, -0.0774975568f, -0.0773676187f, -0.0772351548f,
 -0.0771001577f, -0.0769626498f, -0.0768226311f, -0.0766801164f, -0.0765351057f, -0.0763876066f, -0.0762376264f, -0.07608518f,
 -0.075930275f, -0.0757729113f, -0.0756131038f, -0.07545086f, -0.0752861872f, -0.0751190931f, -0.0749495849f, -0.0747776702f,
 -0.0746033639f, -0.0744266734f, -0.0742475986f, -0.0740661621f, -0.0738823637f, -0.073696211f, -0.0735077113f, -0.073316887f,
 -0.0731237382f, -0.0729282722f, -0.0727304965f, -0.0725304335f, -0.0723280758f, -0.0721234456f, -0.0719165429f, -0.0717073902f,
 -0.07149598f, -0.0712823346f, -0.0710664615f, -0.0708483681f, -0.0706280693f, -0.0704055652f, -0.070180878f, -0.0699540079f,
 -0.0697249696f, -0.069493778f, -0.0692604333f, -0.0690249503f, -0.0687873438f, -0.0685476139f, -0.068305783f, -0.068061851f,
 -0.0678158402f, -0.0675677508f, -0.067317605f, -0.0670654029f, -0.0668111518f, -0.0665548742f, -0.0662965849f, -0.0660362765f,
 -0.0657739714f, -0.0655096844f, -0.065243423f, -0.0649751946f, -0.0647050142f, -0.0644328892f, -0.064158842f, -0.0638828725f,
 -0.0636049956f, -0.0633252263f, -0.063043572f, -0.0627600476f, -0.0624746569f, -0.0621874258f, -0.0618983544f, -0.0616074577f,
 -0.0613147505f, -0.0610202439f, -0.0607239492f, -0.0604258776f, -0.0601260401f, -0.0598244518f, -0.0595211238f, -0.0592160709f,
 -0.0589093007f, -0.0586008281f, -0.0582906641f, -0.0579788238f, -0.0576653145f, -0.0573501587f, -0.0570333563f, -0.0567149296f,
 -0.05639489f, -0.0560732447f, -0.0557500124f, -0.0554252006f, -0.0550988279f, -0.0547709018f, -0.0544414409f, -0.0541104525f,
 -0.0537779517f, -0.0534439534f, -0.0531084687f, -0.0527715124f, -0.0524330921f, -0.0520932265f, -0.0517519303f, -0.051409211f,
 -0.0510650873f, -0.0507195666f, -0.0503726676f, -0.0500244014f, -0.0496747829f, -0.0493238233f, -0.0489715338f, -0.0486179367f,
 -0.0482630357f, -0.0479068495f, -0.0475493893f, -0.0471906736f, -0.04683071f, -0.0464695171f, -0.0461071022f, -0.0457434878f,
 -0.0453786775f, -0.0450126939f, -0.0446455479f, -0.0442772508f, -0.0439078175f, -0.0435372666f, -0.0431656055f, -0.0427928492f,
 -0.0424190164f, -0.0420441143f, -0.0416681617f, -0.0412911735f, -0.0409131572f, -0.040534135f, -0.0401541144f, -0.039773114f,
 -0.0393911451f, -0.0390082225f, -0.0386243612f, -0.0382395722f, -0.0378538743f, -0.0374672785f, -0.0370797999f, -0.0366914533f,
 -0.0363022536f, -0.035912212f, -0.0355213434f, -0.0351296663f, -0.0347371884f, -0.0343439318f, -0.0339499041f, -0.0335551202f,
 -0.0331595987f, -0.0327633508f, -0.0323663913f, -0.0319687314f, -0.0315703936f, -0.0311713833f, -0.0307717212f, -0.0303714182f,
 -0.0299704913f, -0.0295689516f, -0.0291668177f, -0.0287640989f, -0.0283608139f, -0.0279569756f, -0.0275525972f, -0.0271476954f,
 -0.0267422833f, -0.0263363738f, -0.0259299837f, -0.025523128f, -0.0251158178f, -0.0247080717f, -0.024299901f, -0.0238913205f,
 -0.023482345f, -0.0230729897f, -0.0226632673f, -0.0222531948f, -0.0218427833f, -0.0214320496f, -0.0210210085f, -0.0206096731f,
 -0.0201980583f, -0.0197861772f, -0.0193740446f, -0.0189616773f, -0.0185490865f, -0.018136289f, -0.0177232977f, -0.0173101258f,
 -0.0168967918f, -0.016483305f, -0.0160696823f, -0.0156559385f, -0.0152420877f, -0.0148281427f, -0.0144141195f, -0.0140000302f,
 -0.0135858916f, -0.0131717157f, -0.0127575183f, -0.0123433135f, -0.0119291143f, -0.0115149356f, -0.0111007914f, -0.0106866965f,
 -0.010272664f, -0.00985870883f, -0.00944484491f, -0.0090310853f, -0.00861744583f, -0.00820393953f, -0.00779058039f, -0.00737738237f,
 -0.0069643599f, -0.00655152649f, -0.0061388961f, -0.00572648272f, -0.0053143003f, -0.00490236329f, -0.00449068425f, -0.00407927809f,
 -0.00366815832f, -0.00325733842f, -0.00284683262f, -0.00243665418f, -0.00202681706f, -0.00161733502f, -0.00120822142f, -0.000799490255f,
 -0.00039115487f, 1.67711114e-05f, 0.000424274098f, 0.000831340614f, 0.00123795716f, 0.00164411031f, 0.0020497865f, 0.00245497259f,
 0.00285965484f, 0.0032638202f, 0.0036674554f, 0.00407054694f, 0.00447308179f, 0.0048750462f, 0.00527642807f, 0.00567721343f,
 0.00607738877f, 0.00647694198f, 0.00687586004f, 0.00727412896f, 0.00767173665f, 0.00806866959f, 0.00846491475f, 0.00886046048f,
 0.00925529283f, 0.00964939874f, 0.010042767f, 0.0104353838f, 0.0108272359f, 0.0112183113f, 0.0116085978f, 0.0119980825f,
 0.0123867523f, 0.012774596f, 0.0131615996f, 0.0135477521f, 0.0139330411f, 0.0143174529f, 0.0147009762f, 0.0150835989f,
 0.015465308f, 0.0158460923f, 0.0162259396f, 0.016604837f, 0.0169827733f, 0.0173597354f, 0.0177357141f, 0.0181106944f,
 0.0184846651f, 0.0188576169f, 0.019229535f, 0.0196004082f, 0.019970227f, 0.0203389786f, 0.0207066499f, 0.0210732315f,
 0.0214387104f, 0.0218030773f, 0.0221663173f, 0.022528423f, 0.0228893813f, 0.023249181f, 0.023607811f, 0.02396526f,
 0.024321517f, 0.0246765707f, 0.0250304118f, 0.0253830291f, 0.0257344097f, 0.0260845441f, 0.0264334213f, 0.02678103f,
 0.0271273609f, 0.0274724048f, 0.0278161466f, 0.028158579f, 0.0284996927f, 0.0288394745f, 0.0291779153f, 0.0295150056f,
 0.0298507325f, 0.0301850885f, 0.0305180643f, 0.0308496468f, 0.0311798286f, 0.0315085985f, 0.0318359472f, 0.0321618654f,
 0.0324863419f, 0.0328093655f, 0.0331309326f, 0.0334510282f, 0.0337696448f, 0.0340867713f, 0.0344024003f, 0.0347165242f,
 0.0350291282f, 0.0353402086f, 0.0356497504f, 0.0359577499f, 0.0362641998f, 0.0365690812f, 0.0368723981f, 0.0371741317f,
 0.0374742746f, 0.0377728231f, 0.038069766f, 0.0383650959f, 0.0386587977f, 0.0389508717f, 0.0392413065f, 0.039530091f,
 0.0398172177f, 0.040102683f, 0.0403864719f, 0.0406685844f, 0.0409490056f, 0.0412277281f, 0.0415047482f, 0.0417800546f,
 0.0420536436f, 0.0423255041f, 0.0425956249f, 0.042864006f, 0.0431306362f, 0.0433955081f, 0.0436586142f, 0.0439199507f,
 0.0441795029f, 0.0444372706f, 0.0446932465f, 0.0449474193f, 0.0451997817f, 0.0454503335f, 0.04569906f, 0.045945961f,
 0.0461910255f, 0.0464342497f, 0.0466756225f, 0.0469151437f, 0.0471528023f, 0.0473885983f, 0.0476225168f, 0.0478545539f,
 0.0480847061f, 0.0483129695f, 0.048539333f, 0.048763793f, 0.0489863418f, 0.0492069796f, 0.0494256914f, 0.0496424809f,
 0.049857337f, 0.0500702523f, 0.0502812266f, 0.0504902527f, 0.0506973267f, 0.0509024411f, 0.0511055887f, 0.051306773f,
 0.0515059792f, 0.0517032072f, 0.0518984497f, 0.0520917065f, 0.0522829704f, 0.0524722338f, 0.0526594967f, 0.0528447554f,
 0.0530279987f, 0.0532092266f, 0.0533884391f, 0.0535656251f, 0.0537407808f, 0.0539139062f, 0.0540849976f, 0.0542540476f,
 0.0544210523f, 0.0545860119f, 0.0547489189f, 0.0549097732f, 0.0550685674f, 0.0552252978f, 0.0553799681f, 0.0555325672f,
 0.055683095f, 0.0558315478f, 0.0559779219f, 0.0561222173f, 0.0562644266f, 0.0564045534f, 0.0565425865f, 0.0566785298f,
 0.0568123758f, 0.0569441281f, 0.0570737757f, 0.0572013259f, 0.0573267676f, 0.0574501045f, 0.0575713329f, 0.0576904491f,
 0.057807453f, 0.0579223409f, 0.0580351129f, 0.0581457652f, 0.0582542978f, 0.058360707f, 0.0584649928f, 0.0585671514f,
 0.0586671829f, 0.0587650873f, 0.0588608608f, 0.0589545071f, 0.0590460189f, 0.059135396f, 0.0592226386f, 0.0593077503f,
 0.0593907237f, 0.0594715588f, 0.0595502593f, 0.0596268177f, 0.0597012416f, 0.0597735234f, 0.0598436669f, 0.0599116683f,
 0.0599775314f, 0.0600412562f, 0.0601028353f, 0.060162276f, 0.0602195784f, 0.0602747351f, 0.0603277571f, 0.0603786334f,
 0.0604273714f, 0.0604739711f, 0.0605184324f, 0.0605607554f, 0.0606009364f, 0.0606389828f, 0.0606748909f, 0.0607086644f,
 0.0607403032f, 0.0607698075f, 0.060797181f, 0.0608224198f, 0.0608455278f, 0.0608665086f, 0.0608853586f, 0.0609020852f,
 0.0609166846f, 0.0609291568f, 0.0609395094f, 0.0609477423f, 0.0609538555f, 0.0609578528f, 0.060959734f, 0.0609595031f,
 0.0609571561f, 0.0609527044f, 0.0609461442f, 0.0609374791f, 0.060926713f, 0.0609138459f, 0.0608988814f, 0.0608818233f,
 0.0608626679f, 0.0608414263f, 0.0608180948f, 0.0607926808f, 0.0607651845f, 0.0607356094f, 0.0607039593f, 0.0606702343f,
 0.0606344417f, 0.0605965815f, 0.0605566576f, 0.0605146736f, 0.0604706369f, 0.0604245439f, 0.060376402f, 0.0603262112f,
 0.0602739826f, 0.0602197126f, 0.0601634085f, 0.0601050742f, 0.0600447133f, 0.0599823259f, 0.0599179231f, 0.0598515049f,
 0.059783075f, 0.0597126372f, 0.0596401989f, 0.0595657639f, 0.0594893321f, 0.0594109148f, 0.0593305118f, 0.059248127f,
 0.0591637678f, 0.0590774417f, 0.0589891449f, 0.0588988923f, 0.0588066801f, 0.0587125197f, 0.0586164147f, 0.058518365f,
 0.058418382f, 0.0583164692f, 0.0582126342f, 0.0581068769f, 0.0579992048f, 0.0578896254f, 0.0577781424f, 0.0576647595f,
 0.0575494878f, 0.0574323311f, 0.0573132932f, 0.0571923815f, 0.0570695996f, 0.0569449551f, 0.0568184555f, 0.0566901043f,
 0.0565599091f, 0.0564278774f, 0.0562940091f, 0.0561583191f, 0.0560208112f, 0.0558814853f, 0.0557403564f, 0.0555974282f,
 0.0554527082f, 0.0553061962f, 0.0551579073f, 0.0550078452f, 0.0548560172f, 0.054702431f, 0.0545470901f, 0.054390002f,
 0.054231178f, 0.0540706217f, 0.0539083406f, 0.0537443422f, 0.0535786338f, 0.0534112193f, 0.0532421134f, 0.0530713201f,
 0.0528988428f, 0.052724693f, 0.0525488779f, 0.0523714051f, 0.0521922819f, 0.0520115159f, 0.0518291146f, 0.0516450852f,
 0.0514594391f, 0.0512721762f, 0.0510833152f, 0.050892856f, 0.0507008061f, 0.0505071804f, 0.0503119826f, 0.0501152202f,
 0.0499169044f, 0.0497170389f, 0.0495156385f, 0.0493127033f, 0.0491082482f, 0.0489022806f, 0.048694808f, 0.0484858379f,
 0.0482753776f, 0.0480634384f, 0.0478500314f, 0.0476351604f, 0.0474188365f, 0.0472010672f, 0.0469818637f, 0.0467612296f,
 0.04653918f, 0.0463157222f, 0.0460908636f, 0.0458646119f, 0.0456369817f, 0.045407977f, 0.045177605f, 0.0449458808f,
 0.0447128117f, 0.0444784053f, 0.0442426726f, 0.0440056212f, 0.0437672623f, 0.0435276031f, 0.0432866551f, 0.0430444255f,
 0.0428009294f, 0.0425561666f, 0.0423101559f, 0.0420629047f, 0.0418144166f, 0.0415647104f, 0.0413137861f, 0.0410616621f,
 0.0408083424f, 0.0405538417f, 0.0402981639f, 0.0400413238f, 0.0397833325f, 0.0395241939f, 0.039263919f, 0.0390025228f,
 0.0387400128f, 0.0384763964f, 0.0382116847f, 0.0379458927f, 0.037679024f, 0.03741109f, 0.0371421054f, 0.036872074f,
 0.0366010144f, 0.0363289267f, 0.0360558294f, 0.03578173f, 0.0355066359f, 0.0352305621f, 0.034953516f, 0.0346755087f,
 0.0343965515f, 0.0341166519f, 0.0338358246f, 0.0335540771f, 0.0332714245f, 0.0329878703f, 0.0327034295f, 0.0324181095f,
 0.0321319252f, 0.0318448879f, 0.0315570012f, 0.0312682837f, 0.0309787393f, 0.0306883827f, 0.0303972233f, 0.0301052723f,
 0.0298125427f, 0.0295190401f, 0.0292247795f, 0.02892977f, 0.0286340229f, 0.0283375494f, 0.0280403588f, 0.0277424641f,
 0.0274438746f, 0.0271446016f, 0.0268446561f, 0.0265440494f, 0.0262427907f, 0.0259408932f, 0.025638368f, 0.0253352225f,
 0.0250314716f, 0.0247271247f, 0.0244221929f, 0.0241166875f, 0.0238106195f, 0.0235040002f, 0.0231968388f, 0.0228891484f,
 0.0225809384f, 0.0222722217f, 0.0219630077f, 0.0216533095f, 0.0213431362f, 0.0210324991f, 0.0207214095f, 0.0204098802f,
 0.0200979207f, 0.019785542f, 0.0194727555f, 0.0191595722f, 0.0188460033f, 0.0185320601f, 0.0182177536f, 0.0179030951f,
 0.0175880957f, 0.0172727667f, 0.0169571191f, 0.0166411623f, 0.0163249113f, 0.0160083733f, 0.0156915616f, 0.0153744873f,
 0.0150571605f, 0.0147395935f, 0.0144217974f, 0.0141037814f, 0.0137855588f, 0.0134671405f, 0.0131485369f, 0.0128297582f,
 0.0125108184f, 0.0121917259f, 0.0118724927f, 0.0115531301f, 0.0112336492f, 0.0109140612f, 0.0105943764f, 0.0102746068f,
 0.00995476265f, 0.00963485613f, 0.00931489747f, 0.00899489783f, 0.00867486838f, 0.00835482031f, 0.00803476479f, 0.0077147116f,
 0.0073946733f, 0.00707465969f, 0.00675468286f, 0.00643475307f, 0.00611488102f, 0.00579507835f, 0.00547535578f, 0.00515572447f,
 0.00483619468f, 0.00451677805f, 0.00419748481f, 0.00387832639f, 0.00355931325f, 0.00324045634f, 0.0029217666f, 0.00260325475f,
 0.00228493172f, 0.00196680822f, 0.00164889498f, 0.0013312028f, 0.00101374253f, 0.00069652457f, 0.000379559933f, 6.28591515e-05f,
 -0.000253567065f, -0.000569708063f, -0.000885553251f, -0.00120109192f, -0.00151631364f, -0.00183120777f, -0.00214576372f, -0.002459971f,
 -0.00277381903f, -0.00308729731f, -0.00340039562f, -0.00371310324f, -0.00402540993f, -0.0043373052f, -0.00464877859f, -0.0049598203f,
 -0.00527041918f, -0.00558056543f, -0.00589024834f, -0.00619945815f, -0.0065081846f, -0.00681641698f, -0.00712414598f, -0.00743136043f,
 -0.007738051f, -0.00804420747f, -0.00834981911f, -0.00865487661f, -0.00895936973f, -0.00926328823f, -0.00956662279f, -0.00986936316f,
 -0.0101714991f, -0.0104730204f, -0.0107739186f, -0.0110741826f, -0.011373803f, -0.0116727706f, -0.0119710751f, -0.0122687072f,
 -0.0125656556f, -0.0128619131f, -0.0131574692f, -0.0134523138f, -0.0137464376f, -0.0140398322f, -0.0143324863f, -0.0146243917f,
 -0.014915538f, -0.0152059169f, -0.0154955182f, -0.0157843344f, -0.0160723533f, -0.0163595676f, -0.016645968f, -0.016931545f,
 -0.0172162894f, -0.0175001919f, -0.0177832451f, -0.0180654377f, -0.0183467623f, -0.0186272096f, -0.0189067703f, -0.019185435f,
 -0.0194631964f, -0.0197400451f, -0.0200159717f, -0.0202909689f, -0.0205650274f, -0.0208381377f, -0.0211102907f, -0.0213814806f,
 -0.0216516964f, -0.0219209306f, -0.0221891738f, -0.0224564206f, -0.0227226578f, -0.0229878817f, -0.023252083f, -0.0235152505f,
 -0.0237773806f, -0.0240384601f, -0.0242984854f, -0.0245574452f, -0.024815334f, -0.0250721425f, -0.0253278632f, -0.0255824886f,
 -0.0258360095f, -0.0260884184f, -0.0263397098f, -0.0265898723f, -0.0268389024f, -0.0270867888f, -0.0273335259f, -0.0275791064f,
 -0.0278235208f, -0.0280667637f, -0.0283088274f, -0.0285497047f, -0.028789388f, -0.0290278681f, -0.0292651411f, -0.0295011979f,
 -0.0297360327f, -0.0299696382f, -0.0302020051f, -0.0304331295f, -0.0306630023f, -0.0308916196f, -0.0311189704f, -0.0313450508f,
 -0.0315698534f, -0.0317933708f, -0.0320155993f, -0.0322365314f, -0.0324561559f, -0.0326744691f, -0.0328914672f, -0.0331071429f,
 -0.0333214886f, -0.033534497f, -0.033746168f, -0.0339564867f, -0.0341654494f, -0.0343730561f, -0.0345792919f, -0.0347841606f,
 -0.0349876471f, -0.0351897515f, -0.0353904627f, -0.0355897844f, -0.0357876979f, -0.0359842107f, -0.0361793078f, -0.0363729857f,
 -0.0365652442f, -0.0367560722f, -0.0369454622f, -0.037133418f, -0.0373199247f, -0.0375049859f, -0.0376885869f, -0.0378707312f,
 -0.0380514115f, -0.0382306166f, -0.0384083502f, -0.0385846011f, -0.0387593694f, -0.0389326476f, -0.0391044319f, -0.0392747149f,
 -0.0394434966f, -0.0396107696f, -0.0397765264f, -0.0399407707f, -0.0401034914f, -0.0402646847f, -0.0404243506f, -0.0405824818f,
 -0.0407390743f, -0.0408941247f, -0.0410476252f, -0.0411995798f, -0.0413499773f, -0.0414988138f, -0.0416460931f, -0.0417918041f,
 -0.0419359431f, -0.0420785099f, -0.042219501f, -0.0423589125f, -0.0424967371f, -0.0426329784f, -0.0427676253f, -0.0429006778f,
 -0.0430321358f, -0.043161992f, -0.0432902426f, -0.0434168912f, -0.0435419269f, -0.0436653495f, -0.0437871553f, -0.0439073443f,
 -0.0440259129f, -0.0441428572f, -0.0442581736f, -0.044371862f, -0.0444839187f, -0.04459434f, -0.0447031222f, -0.044810269f,
 -0.044915773f, -0.0450196341f, -0.0451218486f, -0.0452224128f, -0.0453213304f, -0.045418594f, -0.0455142036f, -0.0456081554f,
 -0.0457004495f, -0.0457910858f, -0.0458800606f, -0.0459673703f, -0.0460530147f, -0.0461369939f, -0.0462193079f, -0.0462999493f,
 -0.0463789217f, -0.0464562178f, -0.0465318449f, -0.0466057956f, -0.04667807f, -0.046748668f, -0.0468175896f, -0.046884831f,
 -0.0469503924f, -0.0470142737f, -0.0470764749f, -0.0471369922f, -0.0471958257f, -0.0472529754f, -0.0473084413f, -0.0473622233f,
 -0.0474143215f, -0.0474647321f, -0.0475134589f, -0.0475604981f, -0.0476058498f, -0.0476495139f, -0.0476914942f, -0.047731787f,
 -0.0477703921f, -0.0478073135f, -0.0478425436f, -0.0478760898f, -0.0479079522f, -0.0479381271f, -0.0479666144f, -0.0479934178f,
 -0.0480185375f, -0.0480419733f, -0.0480637252f, -0.0480837934f, -0.0481021777f, -0.0481188819f, -0.048133906f, -0.0481472537f,
 -0.0481589176f, -0.0481689051f, -0.0481772162f, -0.0481838509f, -0.048188813f, -0.0481920987f, -0.0481937155f, -0.0481936596f,
 -0.0481919311f, -0.0481885411f, -0.0481834784f, -0.0481767543f, -0.0481683649f, -0.0481583178f, -0.0481466055f, -0.0481332392f,
 -0.0481182113f, -0.0481015332f, -0.0480832011f, -0.0480632186f, -0.0480415858f, -0.0480183102f, -0.047993388f, -0.047966823f,
 -0.0479386188f, -0.0479087755f, -0.0478772968f, -0.0478441864f, -0.0478094481f, -0.0477730781f, -0.0477350838f, -0.0476954691f,
 -0.0476542339f, -0.0476113781f, -0.0475669131f, -0.0475208312f, -0.0474731438f, -0.0474238507f, -0.0473729558f, -0.047320459f,
 -0.0472663678f, -0.0472106822f, -0.0471534058f, -0.0470945425f, -0.047034096f, -0.0469720699f, -0.046908468f, -0.0468432941f,
 -0.046776548f, -0.0467082337f, -0.0466383584f, -0.0465669259f, -0.0464939363f, -0.046419397f, -0.0463433117f, -0.0462656803f,
 -0.0461865067f, -0.0461058021f, -0.0460235626f, -0.0459397994f, -0.0458545089f, -0.0457676984f, -0.0456793755f, -0.0455895402f,
 -0.0454981998f, -0.0454053581f, -0.0453110151f, -0.045215182f, -0.0451178588f, -0.0450190529f, -0.0449187644f, -0.0448170044f,
 -0.0447137728f, -0.0446090735f, -0.0445029177f, -0.0443953015f, -0.0442862399f, -0.0441757292f, -0.0440637767f, -0.0439503863f,
 -0.0438355692f, -0.0437193252f, -0.0436016582f, -0.0434825793f, -0.0433620885f, -0.0432401896f, -0.0431168936f, -0.0429922044f,
 -0.0428661257f, -0.0427386649f, -0.0426098257f, -0.0424796119f, -0.0423480347f, -0.042215094f, -0.0420807973f, -0.041945152f,
 -0.0418081656f, -0.0416698381f, -0.0415301807f, -0.0413891934f, -0.0412468873f, -0.0411032662f, -0.0409583375f, -0.0408121087f,
 -0.0406645797f, -0.0405157618f, -0.0403656587f, -0.0402142815f, -0.0400616303f, -0.0399077125f, -0.0397525355f, -0.0395961069f,
 -0.0394384339f, -0.0392795205f, -0.039119374f, -0.0389579982f, -0.0387954041f, -0.0386315957f, -0.0384665802f, -0.0383003652f,
 -0.0381329544f, -0.0379643589f, -0.0377945825f, -0.0376236327f, -0.0374515168f, -0.0372782387f, -0.0371038094f, -0.0369282328f,
 -0.0367515199f, -0.0365736745f, -0.0363947041f, -0.0362146161f, -0.0360334143f, -0.0358511135f, -0.0356677137f, -0.0354832262f,
 -0.0352976546f, -0.0351110101f, -0.0349232964f, -0.0347345248f, -0.0345446989f, -0.0343538262f, -0.0341619179f, -0.0339689776f,
 -0.0337750167f, -0.0335800387f, -0.0333840512f, -0.0331870653f, -0.0329890847f, -0.0327901207f, -0.0325901806f, -0.0323892683f,
 -0.0321873948f, -0.0319845639f, -0.0317807905f, -0.0315760747f, -0.0313704275f, -0.0311638601f, -0.0309563745f, -0.0307479817f,
 -0.0305386912f, -0.0303285066f, -0.0301174391f, -0.0299054962f, -0.0296926852f, -0.0294790138f, -0.0292644911f, -0.0290491246f,
 -0.0288329236f, -0.0286158938f, -0.0283980463f, -0.0281793848f, -0.0279599223f, -0.0277396645f, -0.0275186207f, -0.0272967983f,
 -0.0270742048f, -0.0268508513f, -0.0266267434f, -0.0264018904f, -0.0261762999f, -0.0259499829f, -0.0257229451f, -0.0254951939f,
 -0.0252667405f, -0.0250375941f, -0.0248077586f, -0.024577247f, -0.0243460648f, -0.0241142232f, -0.0238817278f, -0.0236485898f,
 -0.0234148148f, -0.023180414f, -0.0229453947f, -0.0227097664f, -0.0224735383f, -0.022236716f, -0.0219993107f, -0.0217613298f,
 -0.0215227827f, -0.0212836768f, -0.0210440233f, -0.0208038297f, -0.0205631033f, -0.0203218553f, -0.0200800914f, -0.0198378228f,
 -0.0195950586f, -0.0193518046f, -0.0191080738f, -0.0188638698f, -0.0186192058f, -0.0183740892f, -0.0181285292f, -0.0178825315f,
 -0.0176361091f, -0.0173892695f, -0.017142022f, -0.0168943722f, -0.016646333f, -0.0163979121f, -0.0161491167f, -0.0158999581f,
 -0.0156504437f, -0.015400582f, -0.0151503831f, -0.0148998555f, -0.0146490075f, -0.0143978493f, -0.0141463885f, -0.0138946343f,
 -0.0136425961f, -0.0133902822f, -0.0131377019f, -0.0128848646f, -0.0126317786f, -0.0123784523f, -0.012124896f, -0.0118711172f,
 -0.0116171259f, -0.0113629298f, -0.01110854f, -0.010853963f, -0.010599209f, -0.0103442874f, -0.0100892056f, -0.00983397383f,
 -0.00957859959f, -0.00932309404f, -0.00906746462f, -0.00881171972f, -0.00855586957f, -0.00829992164f, -0.00804388616f, -0.00778777199f,
 -0.0075315875f, -0.00727534108f, -0.0070190425f, -0.00676270016f, -0.00650632335f, -0.00624992093f, -0.00599350082f, -0.00573707325f,
 -0.00548064616f, -0.00522422837f, -0.00496782921f, -0.00471145753f, -0.0044551217f, -0.00419883057f, -0.00394259347f, -0.00368641852f,
 -0.00343031506f, -0.00317429146f, -0.0029183568f, -0.00266251969f, -0.00240678899f, -0.00215117331f, -0.00189568149f, -0.00164032204f,
 -0.00138510391f, -0.00113003561f, -0.000875125988f, -0.000620383595f, -0.000365817104f, -0.000111435198f, 0.000142753503f, 0.00039674039f,
 0.000650516886f, 0.000904074288f, 0.00115740416f, 0.00141049782f, 0.00166334677f, 0.00191594253f, 0.00216827658f, 0.0024203402f,
 0.00267212535f, 0.00292362296f, 0.00317482511f, 0.00342572317f, 0.00367630855f, 0.00392657332f, 0.00417650817f, 0.00442610588f,
 0.00467535714f, 0.00492425449f, 0.00517278863f, 0.0054209521f, 0.00566873653f, 0.00591613306f, 0.00616313424f, 0.00640973123f,
 0.00665591611f, 0.00690168049f, 0.00714701647f, 0.00739191566f, 0.0076363706f, 0.007880372f, 0.00812391285f, 0.00836698525f,
 0.00860957988f, 0.00885169022f, 0.00909330696f, 0.00933442358f, 0.00957503077f, 0.00981512107f, 0.010054687f, 0.0102937212f,
 0.0105322143f, 0.0107701588f, 0.0110075483f, 0.0112443734f, 0.0114806267f, 0.0117163016f, 0.0119513897f, 0.0121858828f,
 0.0124197742f, 0.0126530556f, 0.0128857195f, 0.0131177595f, 0.0133491661f, 0.013579933f, 0.0138100525f, 0.0140395174f,
 0.0142683201f, 0.0144964531f, 0.0147239091f, 0.0149506805f, 0.01517676f, 0.015402141f, 0.0156268161f, 0.0158507787f,
 0.0160740186f, 0.016296532f, 0.0165183116f, 0.0167393479f, 0.0169596355f, 0.0171791669f, 0.0173979364f, 0.0176159348f,
 0.0178331584f, 0.0180495959f, 0.0182652436f, 0.0184800941f, 0.01869414f, 0.0189073738f, 0.0191197917f, 0.0193313845f,
 0.0195421465f, 0.0197520684f, 0.0199611485f, 0.0201693773f, 0.0203767475f, 0.0205832534f, 0.0207888894f, 0.0209936481f,
 0.0211975258f, 0.0214005113f, 0.0216026008f, 0.0218037888f, 0.0220040679f, 0.0222034324f, 0.0224018767f, 0.0225993935f,
 0.0227959771f, 0.02299162f, 0.0231863186f, 0.0233800653f, 0.0235728566f, 0.0237646829f, 0.0239555407f, 0.0241454225f,
 0.0243343245f, 0.0245222393f, 0.0247091632f, 0.0248950887f, 0.0250800103f, 0.0252639223f, 0.0254468191f, 0.0256286971f,
 0.0258095469f, 0.0259893667f, 0.0261681508f, 0.0263458919f, 0.0265225843f, 0.0266982242f, 0.0268728081f, 0.0270463265f,
 0.0272187777f, 0.0273901541f, 0.0275604539f, 0.0277296677f, 0.0278977938f, 0.0280648246f, 0.0282307584f, 0.0283955894f,
 0.0285593104f, 0.0287219174f, 0.0288834088f, 0.0290437751f, 0.0292030144f, 0.0293611232f, 0.0295180939f, 0.0296739228f,
 0.0298286062f, 0.0299821403f, 0.0301345196f, 0.0302857403f, 0.0304357968f, 0.0305846855f, 0.0307324026f, 0.0308789425f,
 0.0310243033f, 0.0311684795f, 0.0313114673f, 0.0314532593f, 0.0315938592f, 0.0317332558f, 0.0318714492f, 0.0320084356f,
 0.0321442075f, 0.032278765f, 0.0324121006f, 0.0325442143f, 0.0326751024f, 0.0328047574f, 0.0329331793f, 0.0330603644f,
 0.033186309f, 0.0333110057f, 0.0334344581f, 0.0335566588f, 0.033677604f, 0.0337972902f, 0.0339157172f, 0.0340328813f,
 0.034148775f, 0.0342634022f, 0.0343767554f, 0.0344888307f, 0.0345996283f, 0.0347091444f, 0.0348173752f, 0.0349243209f,
 0.0350299738f, 0.0351343341f, 0.035237398f, 0.0353391655f, 0.0354396291f, 0.0355387926f, 0.0356366523f, 0.0357332006f,
 0.0358284414f, 0.0359223671f, 0.0360149778f, 0.0361062735f, 0.0361962467f, 0.0362849012f, 0.0363722332f, 0.036458239f,
 0.0365429148f, 0.0366262645f, 0.0367082804f, 0.0367889628f, 0.0368683115f, 0.0369463265f, 0.0370230004f, 0.0370983332f,
 0.037172325f, 0.0372449756f, 0.0373162776f, 0.0373862386f, 0.0374548472f, 0.0375221111f, 0.0375880226f, 0.0376525819f,
 0.0377157927f, 0.0377776437f, 0.0378381461f, 0.0378972888f, 0.0379550718f, 0.0380115025f, 0.0380665697f, 0.038120281f,
 0.0381726287f, 0.0382236131f, 0.0382732376f, 0.0383215025f, 0.0383684002f, 0.0384139344f, 0.0384581015f, 0.038500905f,
 0.0385423452f, 0.0385824144f, 0.0386211202f, 0.0386584587f, 0.0386944301f, 0.0387290344f, 0.0387622714f, 0.0387941413f,
 0.0388246439f, 0.0388537757f, 0.038881544f, 0.0389079414f, 0.0389329717f, 0.0389566347f, 0.0389789306f, 0.0389998592f,
 0.0390194207f, 0.0390376188f, 0.0390544459f, 0.0390699133f, 0.0390840098f, 0.0390967466f, 0.0391081162f, 0.0391181223f,
 0.0391267687f, 0.0391340517f, 0.0391399749f, 0.0391445346f, 0.0391477346f, 0.0391495787f, 0.0391500629f, 0.0391491912f,
 0.0391469672f, 0.0391433835f, 0.0391384475f, 0.0391321629f, 0.0391245224f, 0.0391155332f, 0.0391051993f, 0.039093513f,
 0.039080482f, 0.0390661098f, 0.0390503928f, 0.0390333347f, 0.0390149355f, 0.0389951989f, 0.0389741287f, 0.038951721f,
 0.0389279798f, 0.0389029086f, 0.0388765074f, 0.0388487801f, 0.0388197266f, 0.0387893505f, 0.038757652f, 0.0387246348f,
 0.0386902988f, 0.0386546478f, 0.0386176854f, 0.0385794118f, 0.0385398306f, 0.0384989418f, 0.0384567492f, 0.0384132564f,
 0.0383684635f, 0.0383223779f, 0.038274996f, 0.0382263213f, 0.0381763577f, 0.0381251127f, 0.0380725823f, 0.0380187705f,
 0.0379636809f, 0.0379073173f, 0.0378496833f, 0.037790779f, 0.0377306081f, 0.0376691781f, 0.0376064852f, 0.0375425331f,
 0.0374773294f, 0.0374108776f, 0.0373431742f, 0.0372742303f, 0.0372040458f, 0.0371326208f, 0.0370599627f, 0.0369860753f,
 0.0369109623f, 0.0368346237f, 0.0367570631f, 0.0366782881f, 0.0365982987f, 0.0365171023f, 0.0364346988f, 0.0363510922f,
 0.0362662897f, 0.0361802913f, 0.0360931046f, 0.0360047296f, 0.0359151736f, 0.0358244367f, 0.0357325263f, 0.0356394425f,
 0.0355451964f, 0.0354497842f, 0.0353532173f, 0.0352554955f, 0.0351566225f, 0.0350566022f, 0.034955442f, 0.0348531455f,
 0.0347497165f, 0.0346451588f, 0.034539476f, 0.0344326757f, 0.0343247615f, 0.0342157334f, 0.0341056027f, 0.0339943692f,
 0.0338820368f, 0.0337686166f, 0.0336541086f, 0.0335385166f, 0.033421848f, 0.0333041064f, 0.0331852995f, 0.0330654271f,
 0.0329444967f, 0.0328225121f, 0.0326994807f, 0.0325754061f, 0.0324502923f, 0.0323241465f, 0.0321969725f, 0.0320687741f,
 0.0319395624f, 0.0318093337f, 0.0316780992f, 0.0315458626f, 0.0314126313f, 0.0312784091f, 0.0311431978f, 0.0310070068f,
 0.0308698416f, 0.0307317078f, 0.0305926073f, 0.0304525495f, 0.0303115379f, 0.0301695801f, 0.030026678f, 0.0298828408f,
 0.0297380742f, 0.0295923799f, 0.0294457674f, 0.0292982422f, 0.029149808f, 0.0290004723f, 0.0288502406f, 0.0286991168f,
 0.02854711f, 0.0283942241f, 0.0282404665f, 0.0280858409f, 0.0279303547f, 0.0277740136f, 0.0276168231f, 0.0274587907f,
 0.027299922f, 0.0271402206f, 0.026979696f, 0.0268183537f, 0.0266561992f, 0.0264932383f, 0.0263294764f, 0.0261649229f,
 0.0259995814f, 0.0258334577f, 0.025666561f, 0.025498895f, 0.0253304671f, 0.0251612831f, 0.0249913502f, 0.0248206761f,
 0.0246492624f, 0.0244771205f, 0.0243042558f, 0.0241306741f, 0.0239563808f, 0.0237813834f, 0.0236056894f, 0.0234293044f,
 0.0232522339f, 0.0230744872f, 0.02289607f, 0.0227169879f, 0.0225372463f, 0.0223568566f, 0.0221758205f, 0.0219941474f,
 0.0218118448f, 0.0216289163f, 0.0214453712f, 0.0212612152f, 0.0210764557f, 0.0208911002f, 0.0207051523f, 0.0205186233f,
 0.0203315169f, 0.0201438423f, 0.0199556034f, 0.0197668094f, 0.0195774678f, 0.0193875823f, 0.0191971641f, 0.0190062169f,
 0.0188147482f, 0.0186227672f, 0.0184302777f, 0.018237289f, 0.0180438068f, 0.0178498384f, 0.0176553931f, 0.0174604747f,
 0.0172650907f, 0.0170692503f, 0.0168729592f, 0.0166762248f, 0.0164790545f, 0.0162814539f, 0.0160834324f, 0.0158849955f,
 0.0156861506f, 0.0154869054f, 0.015287267f, 0.0150872422f, 0.0148868384f, 0.0146860629f, 0.0144849224f, 0.0142834242f,
 0.0140815768f, 0.0138793858f, 0.0136768594f, 0.0134740043f, 0.0132708279f, 0.0130673377f, 0.0128635401f, 0.0126594435f,
 0.0124550546f, 0.0122503806f, 0.0120454291f, 0.0118402075f, 0.0116347224f, 0.0114289811f, 0.0112229921f, 0.011016761f,
 0.0108102961f, 0.0106036048f, 0.0103966948f, 0.0101895714f, 0.00998224411f, 0.00977471936f, 0.00956700463f, 0.00935910642f,
 0.00915103313f, 0.00894279219f, 0.00873439014f, 0.00852583349f, 0.00831713155f, 0.00810829084f, 0.00789931789f, 0.00769022154f,
 0.00748100737f, 0.00727168377f, 0.0070622582f, 0.00685273716f, 0.00664312858f, 0.00643343944f, 0.00622367719f, 0.00601384928f,
 0.0058039627f, 0.0055940249f, 0.00538404286f, 0.0051740245f, 0.0049639768f, 0.00475390675f, 0.00454382179f, 0.00433372986f,
 0.00412363699f, 0.00391355157f, 0.00370348012f, 0.00349343009f, 0.00328340894f, 0.0030734234f, 0.00286348141f, 0.00265358971f,
 0.00244375551f, 0.00223398628f, 0.00202428899f, 0.00181467086f, 0.00160513923f, 0.00139570108f, 0.00118636375f, 0.000977134332f,
 0.000768019992f, 0.000559027831f, 0.000350165035f, 0.000141438693f, -6.71440648e-05f, -0.000275576138f, -0.000483850425f, -0.000691959867f,
 -0.000899897306f, -0.00110765581f, -0.00131522818f, -0.00152260752f, -0.00172978675f, -0.00193675887f, -0.00214351667f, -0.00235005352f,
 -0.00255636219f, -0.0027624357f, -0.0029682673f, -0.00317385001f, -0.0033791766f, -0.00358424056f, -0.00378903467f, -0.00399355218f,
 -0.0041977861f, -0.00440172991f, -0.00460537663f, -0.00480871927f, -0.00501175085f, -0.00521446485f, -0.00541685475f, -0.00561891356f,
 -0.00582063431f, -0.00602201046f, -0.00622303504f, -0.006423702f, -0.00662400387f, -0.00682393461f, -0.00702348724f, -0.00722265523f,
 -0.00742143206f, -0.00761981076f, -0.00781778526f, -0.00801534858f, -0.00821249466f, -0.008409217f, -0.00860550813f, -0.00880136248f,
 -0.00899677351f, -0.00919173472f, -0.00938623864f, -0.00958028063f, -0.00977385417f, -0.00996695086f, -0.010159567f, -0.0103516942f,
 -0.0105433268f, -0.0107344594f, -0.0109250853f, -0.0111151971f, -0.0113047902f, -0.011493857f, -0.011682393f, -0.0118703907f,
 -0.0120578445f, -0.012244748f, -0.0124310954f, -0.0126168812f, -0.0128020979f, -0.012986741f, -0.0131708039f, -0.01335428f,
 -0.0135371648f, -0.0137194516f, -0.013901134f, -0.0140822073f, -0.0142626651f, -0.0144425007f, -0.0146217095f, -0.0148002859f,
 -0.0149782235f, -0.0151555166f, -0.0153321605f, -0.0155081479f, -0.015683474f, -0.0158581343f, -0.0160321221f, -0.01620543f,
 -0.0163780563f, -0.0165499933f, -0.0167212356f, -0.0168917794f, -0.0170616172f, -0.0172307435f, -0.0173991546f, -0.0175668448f,
 -0.0177338086f, -0.0179000404f, -0.0180655345f, -0.0182302855f, -0.0183942914f, -0.0185575429f, -0.0187200382f, -0.0188817699f,
 -0.0190427341f, -0.0192029253f, -0.0193623379f, -0.0195209701f, -0.0196788125f, -0.0198358633f, -0.019992115f, -0.0201475658f,
 -0.02030221f, -0.0204560403f, -0.0206090547f, -0.0207612496f, -0.0209126156f, -0.0210631527f, -0.0212128535f, -0.0213617161f,
 -0.0215097331f, -0.0216569006f, -0.0218032151f, -0.021948671f, -0.0220932662f, -0.0222369935f, -0.0223798491f, -0.0225218292f,
 -0.0226629302f, -0.0228031483f, -0.022942476f, -0.0230809115f, -0.0232184529f, -0.023355091f, -0.0234908257f, -0.0236256495f,
 -0.0237595625f, -0.0238925572f, -0.0240246318f, -0.0241557825f, -0.0242860038f, -0.0244152918f, -0.0245436449f, -0.0246710572f,
 -0.0247975253f, -0.0249230452f, -0.0250476152f, -0.0251712296f, -0.0252938867f, -0.0254155807f, -0.0255363099f, -0.0256560687f,
 -0.0257748552f, -0.0258926675f, -0.0260094982f, -0.0261253472f, -0.0262402091f, -0.0263540838f, -0.0264669638f, -0.0265788492f,
 -0.0266897362f, -0.0267996192f, -0.0269084983f, -0.0270163696f, -0.0271232277f, -0.0272290744f, -0.0273339022f, -0.0274377093f,
 -0.0275404938f, -0.0276422538f, -0.0277429838f, -0.0278426819f, -0.0279413462f, -0.0280389749f, -0.0281355623f, -0.0282311086f,
 -0.0283256099f, -0.0284190644f, -0.0285114702f, -0.0286028218f, -0.0286931191f, -0.0287823603f, -0.0288705416f, -0.0289576612f,
 -0.0290437173f, -0.0291287079f, -0.0292126294f, -0.0292954799f, -0.0293772575f, -0.0294579621f, -0.0295375884f, -0.0296161361f,
 -0.0296936035f, -0.0297699869f, -0.029845288f, -0.0299195014f, -0.029992627f, -0.0300646611f, -0.0301356055f, -0.0302054565f,
 -0.0302742105f, -0.0303418692f, -0.030408429f, -0.0304738898f, -0.0305382498f, -0.0306015052f, -0.0306636579f, -0.0307247043f,
 -0.0307846442f, -0.0308434758f, -0.0309011973f, -0.0309578087f, -0.0310133081f, -0.0310676936f, -0.0311209671f, -0.031173123f,
 -0.0312241651f, -0.0312740877f, -0.0313228928f, -0.0313705802f, -0.0314171463f, -0.0314625911f, -0.0315069146f, -0.0315501168f,
 -0.031592194f, -0.0316331498f, -0.0316729806f, -0.0317116864f, -0.0317492634f, -0.0317857191f, -0.031821046f, -0.0318552442f,
 -0.0318883173f, -0.0319202617f, -0.031951081f, -0.0319807678f, -0.0320093259f, -0.032036759f, -0.0320630595f, -0.032088235f,
 -0.032112278f, -0.0321351923f, -0.0321569778f, -0.0321776308f, -0.0321971588f, -0.032215558f, -0.0322328247f, -0.0322489664f,
 -0.0322639756f, -0.0322778597f, -0.0322906151f, -0.0323022418f, -0.0323127434f, -0.0323221162f, -0.032330364f, -0.032337483f,
 -0.0323434807f, -0.0323483497f, -0.0323520973f, -0.0323547199f, -0.0323562212f, -0.0323565975f, -0.0323558562f, -0.0323539935f,
 -0.0323510095f, -0.0323469043f, -0.0323416851f, -0.0323353484f, -0.0323278941f, -0.032319326f, -0.0323096439f, -0.032298848f,
 -0.032286942f, -0.0322739258f, -0.0322597995f, -0.0322445631f, -0.0322282203f, -0.0322107747f, -0.0321922228f, -0.0321725719f,
 -0.0321518146f, -0.032129962f, -0.0321070068f, -0.03208296f, -0.0320578143f, -0.0320315771f, -0.0320042446f, -0.0319758281f,
 -0.0319463164f, -0.0319157243f, -0.0318840444f, -0.0318512805f, -0.0318174362f, -0.0317825116f, -0.0317465141f, -0.0317094363f,
 -0.0316712894f, -0.0316320695f, -0.0315917805f, -0.0315504223f, -0.0315080024f, -0.0314645171f, -0.0314199738f, -0.0313743725f,
 -0.0313277133f, -0.0312800035f, -0.0312312413f, -0.0311814304f, -0.0311305728f, -0.031078672f, -0.0310257301f, -0.0309717488f,
 -0.0309167318f, -0.0308606811f, -0.0308036003f, -0.0307454895f, -0.0306863543f, -0.0306261964f, -0.0305650197f, -0.0305028241f,
 -0.0304396152f, -0.0303753931f, -0.0303101651f, -0.0302439295f, -0.0301766917f, -0.0301084556f, -0.0300392229f, -0.0299689956f,
 -0.0298977774f, -0.0298255738f, -0.0297523849f, -0.0296782162f, -0.0296030696f, -0.0295269489f, -0.0294498559f, -0.0293717962f,
 -0.0292927716f, -0.0292127877f, -0.0291318446f, -0.0290499479f, -0.0289671011f, -0.0288833063f, -0.028798569f, -0.028712891f,
 -0.0286262762f, -0.02853873f, -0.0284502544f, -0.028360853f, -0.0282705296f, -0.0281792898f, -0.0280871354f, -0.0279940702f,
 -0.0279000979f, -0.0278052241f, -0.0277094524f, -0.0276127849f, -0.027515227f, -0.0274167806f, -0.0273174532f, -0.0272172466f,
 -0.0271161646f, -0.0270142127f, -0.0269113947f, -0.0268077143f, -0.0267031752f, -0.026597783f, -0.0264915396f, -0.0263844524f,
 -0.0262765232f, -0.0261677559f, -0.0260581579f, -0.025947731f, -0.0258364808f, -0.0257244091f, -0.0256115235f, -0.0254978295f,
 -0.0253833272f, -0.0252680238f, -0.0251519233f, -0.0250350311f, -0.0249173492f, -0.024798885f, -0.0246796422f, -0.0245596264f,
 -0.0244388413f, -0.0243172906f, -0.02419498f, -0.0240719151f, -0.0239480976f, -0.0238235369f, -0.0236982349f, -0.0235721972f,
 -0.0234454274f, -0.0233179331f, -0.023189716f, -0.0230607819f, -0.0229311381f, -0.0228007883f, -0.0226697344f, -0.0225379858f,
 -0.0224055462f, -0.0222724192f, -0.0221386123f, -0.0220041275f, -0.0218689721f, -0.0217331517f, -0.0215966702f, -0.0214595329f,
 -0.0213217437f, -0.0211833119f, -0.0210442375f, -0.0209045298f, -0.0207641926f, -0.0206232294f, -0.0204816498f, -0.0203394555f,
 -0.020196652f, -0.020053247f, -0.019909244f, -0.0197646488f, -0.0196194667f, -0.0194737017f, -0.019327363f, -0.0191804525f,
 -0.0190329775f, -0.0188849438f, -0.018736355f, -0.0185872167f, -0.0184375383f, -0.0182873197f, -0.0181365702f, -0.0179852955f,
 -0.0178334974f, -0.017681187f, -0.0175283663f, -0.0173750408f, -0.017221218f, -0.0170669015f, -0.016912099f, -0.0167568158f,
 -0.0166010559f, -0.0164448265f, -0.0162881333f, -0.016130982f, -0.0159733761f, -0.0158153251f, -0.0156568326f, -0.0154979052f,
 -0.0153385485f, -0.015178768f, -0.0150185693f, -0.0148579581f, -0.0146969408f, -0.014535523f, -0.0143737113f, -0.0142115103f,
 -0.0140489265f, -0.0138859665f, -0.0137226349f, -0.0135589382f, -0.013394882f, -0.0132304728f, -0.0130657163f, -0.0129006179f,
 -0.0127351843f, -0.012569421f, -0.0124033345f, -0.0122369295f, -0.0120702134f, -0.011903191f, -0.0117358696f, -0.0115682539f,
 -0.0114003513f, -0.0112321666f, -0.0110637052f, -0.0108949747f, -0.0107259806f, -0.0105567295f, -0.010387226f, -0.0102174766f,
 -0.0100474879f, -0.00987726543f, -0.0097068157f, -0.00953614525f, -0.00936525874f, -0.00919416267f, -0.00902286358f, -0.00885136705f,
 -0.00867967959f, -0.00850780681f, -0.00833575521f, -0.00816353038f, -0.00799113885f, -0.00781858619f, -0.00764587941f, -0.00747302361f,
 -0.00730002532f, -0.00712689059f, -0.00695362501f, -0.00678023556f, -0.00660672784f, -0.00643310789f, -0.00625938177f, -0.006085556f,
 -0.0059116357f, -0.00573762786f, -0.00556353852f, -0.00538937282f, -0.0052151382f, -0.00504083978f, -0.00486648362f, -0.00469207624f,
 -0.00451762369f, -0.00434313156f, -0.00416860636f, -0.0039940537f, -0.00381948054f, -0.00364489201f, -0.00347029441f, -0.00329569401f,
 -0.00312109664f, -0.00294650835f, -0.00277193519f, -0.00259738322f, -0.00242285873f, -0.00224836706f, -0.00207391498f, -0.00189950794f,
 -0.00172515225f, -0.00155085372f, -0.00137661851f, -0.00120245246f, -0.00102836161f, -0.000854352023f, -0.000680429512f, -0.000506600074f,
 -0.000332869706f, -0.00015924433f, 1.42701292e-05f, 0.000187667742f, 0.000360942591f, 0.000534088758f, 0.00070710032f, 0.000879971427f,
 0.00105269614f, 0.00122526858f, 0.00139768305f, 0.00156993337f, 0.00174201396f, 0.001913919f, 0.00208564242f, 0.00225717854f,
 0.00242852164f, 0.0025996659f, 0.00277060526f, 0.00294133415f, 0.00311184698f, 0.00328213768f, 0.00345220068f, 0.00362203037f,
 0.00379162072f, 0.00396096613f, 0.00413006125f, 0.00429889979f, 0.00446747662f, 0.00463578571f, 0.00480382144f, 0.00497157872f,
 0.00513905147f, 0.00530623365f, 0.0054731206f, 0.00563970627f, 0.00580598507f, 0.00597195141f, 0.00613760017f, 0.00630292529f,
 0.00646792119f, 0.00663258322f, 0.00679690531f, 0.00696088187f, 0.0071245078f, 0.00728777749f, 0.00745068584f, 0.00761322677f,
 0.00777539564f, 0.0079371864f, 0.00809859484f, 0.008259614f, 0.00842024013f, 0.00858046673f, 0.00874028914f, 0.00889970176f,
 0.00905869994f, 0.0092172781f, 0.00937543157f, 0.00953315385f, 0.00969044119f, 0.00984728709f, 0.0100036878f, 0.0101596368f,
 0.0103151305f, 0.0104701621f, 0.0106247282f, 0.0107788229f, 0.0109324418f, 0.0110855792f, 0.0112382304f, 0.0113903899f,
 0.0115420539f, 0.0116932169f, 0.0118438732f, 0.0119940201f, 0.0121436501f, 0.0122927604f, 0.0124413446f, 0.0125893988f,
 0.0127369184f, 0.0128838988f, 0.0130303344f, 0.0131762214f, 0.0133215543f, 0.0134663284f, 0.01361054f, 0.0137541844f,
 0.013897256f, 0.0140397511f, 0.0141816642f, 0.0143229924f, 0.0144637302f, 0.0146038728f, 0.0147434156f, 0.014882355f,
 0.0150206871f, 0.0151584055f, 0.0152955074f, 0.015431989f, 0.0155678438f, 0.015703069f, 0.0158376619f, 0.015971614f,
 0.0161049254f, 0.0162375905f, 0.0163696036f, 0.016500961f, 0.016631661f, 0.016761696f, 0.016891066f, 0.0170197636f,
 0.0171477851f, 0.0172751285f, 0.0174017884f, 0.0175277609f, 0.0176530443f, 0.0177776311f, 0.0179015193f, 0.0180247035f,
 0.0181471836f, 0.0182689521f, 0.0183900073f, 0.0185103454f, 0.0186299607f, 0.0187488534f, 0.0188670158f, 0.0189844463f,
 0.019101141f, 0.0192170963f, 0.0193323102f, 0.0194467772f, 0.0195604935f, 0.0196734574f, 0.0197856631f, 0.0198971108f,
 0.0200077929f, 0.0201177113f, 0.0202268567f, 0.020335231f, 0.0204428285f, 0.0205496456f, 0.0206556804f, 0.0207609273f,
 0.0208653882f, 0.0209690556f, 0.0210719258f, 0.0211740006f, 0.0212752726f, 0.0213757399f, 0.0214754008f, 0.0215742514f,
 0.021672288f, 0.0217695106f, 0.0218659136f, 0.0219614934f, 0.0220562518f, 0.0221501812f, 0.0222432818f, 0.0223355498f,
 0.0224269815f, 0.0225175768f, 0.0226073321f, 0.0226962455f, 0.0227843113f, 0.0228715315f, 0.0229579005f, 0.0230434164f,
 0.0231280774f, 0.0232118815f, 0.0232948251f, 0.0233769082f, 0.0234581251f, 0.0235384759f, 0.0236179586f, 0.0236965697f,
 0.0237743091f, 0.0238511711f, 0.0239271577f, 0.0240022633f, 0.0240764897f, 0.0241498314f, 0.0242222883f, 0.0242938567f,
 0.0243645366f, 0.0244343262f, 0.0245032217f, 0.024571225f, 0.0246383306f, 0.0247045383f, 0.0247698445f, 0.024834251f,
 0.0248977542f, 0.0249603521f, 0.0250220448f, 0.0250828303f, 0.0251427051f, 0.025201669f, 0.025259722f, 0.0253168605f,
 0.0253730845f, 0.025428392f, 0.0254827812f, 0.0255362522f, 0.025588803f, 0.0256404318f, 0.0256911386f, 0.0257409215f,
 0.0257897787f, 0.025837712f, 0.0258847177f, 0.025930794f, 0.0259759426f, 0.0260201618f, 0.0260634497f, 0.0261058062f,
 0.0261472296f, 0.0261877198f, 0.0262272768f, 0.0262658969f, 0.0263035838f, 0.0263403319f, 0.026376145f, 0.0264110193f,
 0.0264449567f, 0.0264779534f, 0.0265100133f, 0.0265411306f, 0.0265713111f, 0.026600549f, 0.0266288463f, 0.0266562011f,
 0.0266826153f, 0.026708087f, 0.0267326161f, 0.0267562047f, 0.0267788488f, 0.0268005505f, 0.0268213097f, 0.0268411245f,
 0.0268599968f, 0.0268779267f, 0.0268949121f, 0.0269109551f, 0.0269260556f, 0.0269402117f, 0.0269534271f, 0.0269656982f,
 0.0269770268f, 0.0269874129f, 0.0269968584f, 0.0270053614f, 0.0270129219f, 0.0270195436f, 0.0270252228f, 0.0270299632f,
 0.027033763f, 0.0270366222f, 0.0270385444f, 0.0270395279f, 0.0270395745f, 0.0270386823f, 0.027036855f, 0.0270340927f,
 0.0270303935f, 0.0270257611f, 0.0270201955f, 0.0270136967f, 0.0270062666f, 0.0269979052f, 0.0269886144f, 0.026978394f,
 0.0269672442f, 0.0269551687f, 0.0269421674f, 0.0269282386f, 0.0269133877f, 0.0268976148f, 0.0268809181f, 0.026863303f,
 0.026844766f, 0.0268253125f, 0.0268049426f, 0.0267836563f, 0.0267614555f, 0.0267383438f, 0.0267143194f, 0.0266893841f,
 0.0266635418f, 0.0266367905f, 0.0266091358f, 0.0265805759f, 0.0265511144f, 0.0265207514f, 0.0264894906f, 0.0264573302f,
 0.0264242757f, 0.0263903271f, 0.0263554864f, 0.0263197534f, 0.0262831338f, 0.0262456257f, 0.0262072347f, 0.026167959f,
 0.0261278022f, 0.0260867681f, 0.0260448549f, 0.0260020681f, 0.0259584058f, 0.0259138756f, 0.0258684754f, 0.0258222073f,
 0.025775075f, 0.025727082f, 0.0256782267f, 0.0256285165f, 0.0255779475f, 0.0255265273f, 0.0254742559f, 0.0254211351f,
 0.0253671687f, 0.0253123585f, 0.0252567064f, 0.0252002161f, 0.0251428895f, 0.0250847284f, 0.0250257365f, 0.0249659158f,
 0.0249052681f, 0.024843799f, 0.0247815084f, 0.0247184001f, 0.024654476f, 0.0245897379f, 0.0245241914f, 0.0244578384f,
 0.0243906807f, 0.0243227221f, 0.0242539644f, 0.0241844114f, 0.0241140649f, 0.0240429286f, 0.0239710063f, 0.0238983016f,
 0.0238248147f, 0.0237505492f, 0.0236755107f, 0.023599701f, 0.0235231221f, 0.0234457776f, 0.0233676732f, 0.0232888088f,
 0.0232091881f, 0.023128815f, 0.0230476931f, 0.0229658261f, 0.0228832159f, 0.0227998681f, 0.0227157827f, 0.0226309672f,
 0.0225454196f, 0.0224591494f, 0.0223721564f, 0.0222844444f, 0.0221960172f, 0.0221068785f, 0.0220170319f, 0.0219264813f,
 0.0218352303f, 0.0217432808f, 0.0216506384f, 0.0215573069f, 0.021463288f, 0.0213685874f, 0.0212732069f, 0.0211771522f,
 0.021080425f, 0.0209830329f, 0.0208849739f, 0.0207862575f, 0.0206868835f, 0.0205868594f, 0.0204861853f, 0.0203848667f,
 0.0202829093f, 0.0201803129f, 0.020077087f, 0.0199732296f, 0.0198687501f, 0.0197636485f, 0.0196579304f, 0.0195516013f,
 0.0194446631f, 0.0193371195f, 0.0192289781f, 0.0191202387f, 0.0190109089f, 0.0189009905f, 0.0187904891f, 0.0186794084f,
 0.0185677521f, 0.0184555259f, 0.0183427315f, 0.0182293765f, 0.0181154627f, 0.0180009957f, 0.0178859774f, 0.017770417f,
 0.0176543146f, 0.0175376758f, 0.0174205042f, 0.0173028056f, 0.0171845853f, 0.0170658454f, 0.0169465914f, 0.0168268271f,
 0.0167065579f, 0.0165857878f, 0.0164645202f, 0.0163427629f, 0.0162205175f, 0.0160977896f, 0.0159745831f, 0.0158509035f,
 0.0157267544f, 0.0156021416f, 0.0154770687f, 0.0153515404f, 0.0152255623f, 0.015099138f, 0.0149722723f, 0.0148449698f,
 0.0147172362f, 0.014589075f, 0.0144604919f, 0.0143314907f, 0.0142020769f, 0.0140722552f, 0.0139420293f, 0.0138114057f,
 0.0136803873f, 0.0135489805f, 0.013417189f, 0.0132850185f, 0.0131524727f, 0.013019558f, 0.0128862774f, 0.0127526373f,
 0.0126186414f, 0.0124842953f, 0.0123496037f, 0.0122145712f, 0.0120792035f, 0.0119435051f, 0.0118074799f, 0.0116711343f,
 0.0115344729f, 0.0113974996f, 0.0112602208f, 0.0111226402f, 0.0109847635f, 0.0108465953f, 0.0107081411f, 0.0105694048f,
 0.0104303928f, 0.0102911098f, 0.0101515595f, 0.0100117484f, 0.00987168029f, 0.00973136164f, 0.00959079619f, 0.0094499886f,
 0.00930894632f, 0.0091676712f, 0.00902617071f, 0.00888444949f, 0.00874251127f, 0.00860036165f, 0.00845800713f, 0.00831545051f,
 0.00817269925f, 0.00802975614f, 0.00788662769f, 0.00774331857f, 0.00759983389f, 0.00745617831f, 0.00731235743f, 0.00716837635f,
 0.00702424021f, 0.0068799532f, 0.00673552183f, 0.00659094984f, 0.00644624326f, 0.00630140724f, 0.00615644595f, 0.00601136498f,
 0.00586616993f, 0.00572086545f, 0.00557545619f, 0.00542994821f, 0.00528434571f, 0.00513865473f, 0.00499287946f, 0.0048470255f,
 0.00470109796f, 0.00455510151f, 0.00440904172f, 0.00426292326f, 0.00411675172f, 0.00397053221f, 0.0038242694f, 0.0036779684f,
 0.00353163457f, 0.00338527281f, 0.00323888822f, 0.00309248618f, 0.00294607133f, 0.00279964902f, 0.00265322416f, 0.00250680186f,
 0.00236038747f, 0.00221398566f, 0.00206760154f, 0.00192124047f, 0.00177490723f, 0.00162860693f, 0.00148234458f, 0.00133612531f,
 0.00118995411f, 0.001043836f, 0.000897776044f, 0.000751779182f, 0.00060585048f, 0.000459994946f, 0.000314217585f, 0.000168523373f,
 2.29173129e-05f, -0.000122595622f, -0.000268010452f, -0.000413322181f, -0.000558525906f, -0.000703616592f, -0.000848589349f, -0.000993439113f,
 -0.00113816117f, -0.00128275051f, -0.00142720202f, -0.00157151103f, -0.00171567255f, -0.00185968168f, -0.00200353353f, -0.0021472231f,
 -0.00229074596f, -0.00243409676f, -0.00257727061f, -0.00272026309f, -0.0028630693f, -0.00300568412f, -0.0031481029f, -0.00329032075f,
 -0.003432333f, -0.00357413478f, -0.00371572142f, -0.00385708804f, -0.00399823021f, -0.00413914258f, -0.00427982071f, -0.00442026043f,
 -0.00456045615f, -0.00470040366f, -0.00484009786f, -0.00497953454f, -0.00511870906f, -0.00525761629f, -0.0053962525f, -0.00553461164f,
 -0.00567269046f, -0.00581048382f, -0.00594798708f, -0.00608519558f, -0.00622210512f, -0.00635871058f, -0.00649500825f, -0.00663099252f,
 -0.00676666014f, -0.00690200552f, -0.00703702495f, -0.00717171328f, -0.00730606681f, -0.00744008087f, -0.00757375034f, -0.00770707196f,
 -0.00784004014f, -0.00797265116f, -0.00810490083f, -0.00823678542f, -0.00836829841f, -0.00849943794f, -0.0086301975f, -0.00876057427f,
 -0.00889056455f, -0.00902016181f, -0.0091493642f, -0.00927816611f, -0.00940656383f, -0.00953455269f, -0.00966212898f, -0.00978928898f,
 -0.00991602708f, -0.0100423405f, -0.0101682255f, -0.0102936765f, -0.0104186898f, -0.0105432626f, -0.0106673893f, -0.010791067f,
 -0.0109142913f, -0.0110370582f, -0.0111593641f, -0.0112812044f, -0.0114025753f, -0.0115234731f, -0.011643894f, -0.0117638344f,
 -0.0118832896f, -0.0120022567f, -0.0121207312f, -0.0122387093f, -0.0123561881f, -0.0124731632f, -0.0125896307f, -0.0127055878f,
 -0.0128210289f, -0.0129359532f, -0.0130503541f, -0.0131642297f, -0.0132775763f, -0.0133903902f, -0.0135026677f, -0.0136144049f,
 -0.0137255983f, -0.0138362451f, -0.0139463414f, -0.0140558835f, -0.0141648687f, -0.0142732933f, -0.0143811526f, -0.0144884456f,
 -0.0145951668f, -0.0147013143f, -0.0148068843f, -0.0149118733f, -0.0150162783f, -0.0151200956f, -0.0152233224f, -0.015325956f,
 -0.0154279917f, -0.0155294286f, -0.015630262f, -0.0157304872f, -0.0158301052f, -0.0159291103f, -0.0160275009f, -0.0161252711f,
 -0.0162224211f, -0.0163189452f, -0.0164148435f, -0.0165101103f, -0.0166047458f, -0.0166987423f, -0.0167921018f, -0.0168848205f,
 -0.0169768929f, -0.017068319f, -0.0171590932f, -0.0172492173f, -0.0173386838f, -0.0174274929f, -0.0175156407f, -0.0176031254f,
 -0.0176899452f, -0.0177760944f, -0.0178615749f, -0.0179463793f, -0.0180305075f, -0.0181139577f, -0.0181967281f, -0.018278813f,
 -0.0183602124f, -0.0184409246f, -0.0185209438f, -0.018600272f, -0.0186789036f, -0.0187568385f, -0.0188340731f, -0.0189106055f,
 -0.0189864319f, -0.0190615542f, -0.0191359669f, -0.0192096699f, -0.0192826577f, -0.019354932f, -0.0194264892f, -0.0194973275f,
 -0.0195674449f, -0.0196368396f, -0.0197055098f, -0.0197734516f, -0.0198406652f, -0.0199071486f, -0.0199728999f, -0.0200379174f,
 -0.0201021973f, -0.0201657396f, -0.0202285443f, -0.0202906057f, -0.0203519259f, -0.0204125009f, -0.0204723291f, -0.0205314104f,
 -0.0205897428f, -0.0206473228f, -0.0207041521f, -0.020760227f, -0.0208155457f, -0.02087011f, -0.0209239144f, -0.0209769588f,
 -0.0210292432f, -0.0210807659f, -0.0211315248f, -0.0211815182f, -0.0212307461f, -0.0212792065f, -0.0213268995f, -0.0213738214f,
 -0.021419974f, -0.0214653537f, -0.0215099603f, -0.0215537939f, -0.0215968527f, -0.0216391347f, -0.0216806401f, -0.0217213687f,
 -0.0217613168f, -0.0218004864f, -0.0218388755f, -0.0218764823f, -0.0219133068f, -0.0219493508f, -0.0219846088f, -0.0220190827f,
 -0.0220527723f, -0.022085676f, -0.0221177917f, -0.0221491214f, -0.022179665f, -0.0222094189f, -0.0222383849f, -0.0222665612f,
 -0.0222939476f, -0.0223205443f, -0.0223463494f, -0.0223713648f, -0.0223955885f, -0.0224190205f, -0.022441661f, -0.0224635098f,
 -0.0224845652f, -0.0225048289f, -0.0225242991f, -0.0225429758f, -0.022560861f, -0.0225779507f, -0.0225942489f, -0.0226097517f,
 -0.0226244628f, -0.0226383805f, -0.0226515047f, -0.0226638336f, -0.0226753708f, -0.0226861145f, -0.0226960648f, -0.0227052234f,
 -0.0227135886f, -0.0227211602f, -0.0227279421f, -0.0227339286f, -0.0227391254f, -0.0227435306f, -0.022747146f, -0.0227499697f,
 -0.0227520019f, -0.0227532461f, -0.0227537006f, -0.0227533653f, -0.0227522422f, -0.0227503311f, -0.022747634f, -0.022744149f,
 -0.0227398779f, -0.0227348227f, -0.0227289815f, -0.022722356f, -0.0227149483f, -0.0227067582f, -0.0226977859f, -0.0226880331f,
 -0.0226774998f, -0.0226661861f, -0.0226540957f, -0.0226412285f, -0.0226275828f, -0.0226131622f, -0.0225979686f, -0.0225820001f,
 -0.0225652587f, -0.0225477461f, -0.0225294642f, -0.0225104131f, -0.0224905927f, -0.0224700067f, -0.0224486552f, -0.0224265382f,
 -0.0224036574f, -0.0223800167f, -0.0223556142f, -0.0223304536f, -0.022304533f, -0.0222778581f, -0.0222504269f, -0.0222222414f,
 -0.0221933052f, -0.0221636184f, -0.0221331809f, -0.0221019965f, -0.0220700651f, -0.0220373906f, -0.022003971f, -0.021969812f,
 -0.0219349116f, -0.0218992755f, -0.0218629017f, -0.0218257923f, -0.0217879508f, -0.0217493791f, -0.0217100773f, -0.0216700491f,
 -0.0216292944f, -0.021587817f, -0.0215456169f, -0.021502696f, -0.0214590579f, -0.0214147046f, -0.0213696361f, -0.021323856f,
 -0.0212773662f, -0.0212301686f, -0.0211822651f, -0.0211336575f, -0.0210843496f, -0.0210343413f, -0.0209836364f, -0.0209322348f,
 -0.0208801422f, -0.0208273586f, -0.0207738858f, -0.0207197275f, -0.0206648856f, -0.0206093639f, -0.0205531605f, -0.0204962827f,
 -0.0204387289f, -0.0203805044f, -0.0203216095f, -0.0202620476f, -0.0202018227f, -0.0201409347f, -0.0200793892f, -0.0200171843f,
 -0.0199543256f, -0.0198908169f, -0.0198266581f, -0.0197618529f, -0.0196964033f, -0.0196303129f, -0.0195635855f, -0.0194962211f,
 -0.0194282234f, -0.0193595961f, -0.0192903411f, -0.0192204621f, -0.019149961f, -0.0190788414f, -0.0190071035f, -0.0189347547f,
 -0.0188617948f, -0.0187882278f, -0.0187140554f, -0.0186392833f, -0.0185639113f, -0.0184879433f, -0.018411383f, -0.0183342323f,
 -0.0182564966f, -0.018178178f, -0.0180992763f, -0.0180197991f, -0.0179397482f, -0.0178591255f, -0.0177779365f, -0.0176961813f,
 -0.0176138654f, -0.0175309908f, -0.0174475592f, -0.0173635781f, -0.0172790475f, -0.0171939731f, -0.0171083547f, -0.0170221999f,
 -0.0169355087f, -0.0168482848f, -0.0167605318f, -0.0166722555f, -0.0165834557f, -0.0164941382f, -0.0164043047f, -0.0163139608f,
 -0.0162231065f, -0.0161317494f, -0.0160398912f, -0.0159475356f, -0.0158546846f, -0.0157613438f, -0.0156675149f, -0.0155732026f,
 -0.0154784108f, -0.015383142f, -0.0152874012f, -0.0151911899f, -0.015094514f, -0.0149973761f, -0.01489978f, -0.0148017295f,
 -0.0147032272f, -0.0146042779f, -0.0145048853f, -0.0144050531f, -0.0143047851f, -0.0142040839f, -0.0141029553f, -0.0140014011f,
 -0.013899426f, -0.0137970336f, -0.0136942277f, -0.0135910129f, -0.0134873921f, -0.013383369f, -0.0132789481f, -0.0131741334f,
 -0.0130689284f, -0.0129633369f, -0.0128573626f, -0.0127510093f, -0.0126442825f, -0.0125371842f, -0.0124297198f, -0.0123218922f,
 -0.0122137051f, -0.0121051641f, -0.011996272f, -0.0118870325f, -0.0117774503f, -0.0116675301f, -0.0115572736f, -0.0114466874f,
 -0.0113357734f, -0.0112245381f, -0.0111129824f, -0.0110011138f, -0.0108889332f, -0.0107764471f, -0.0106636584f, -0.0105505707f,
 -0.0104371896f, -0.010323518f, -0.0102095604f, -0.0100953216f, -0.00998080429f, -0.00986601412f, -0.00975095481f, -0.00963562913f,
 -0.00952004362f, -0.00940420013f, -0.00928810518f, -0.00917176064f, -0.00905517209f, -0.00893834326f, -0.00882127881f, -0.00870398153f,
 -0.00858645793f, -0.00846870989f, -0.00835074391f, -0.00823256187f, -0.00811417028f, -0.00799557194f, -0.00787677057f, -0.00775777223f,
 -0.0076385797f, -0.00751919812f, -0.00739963073f, -0.00727988267f, -0.00715995813f, -0.00703986082f, -0.00691959588f, -0.00679916656f,
 -0.00667857798f, -0.00655783387f, -0.00643693842f, -0.00631589675f, -0.00619471259f, -0.00607338967f, -0.00595193356f, -0.00583034754f,
 -0.00570863578f, -0.00558680343f, -0.00546485465f, -0.00534279272f, -0.00522062322f, -0.00509834988f, -0.00497597689f, -0.00485350844f,
 -0.00473094918f, -0.00460830331f, -0.00448557548f, -0.00436276942f, -0.00423988933f, -0.00411694031f, -0.0039939261f, -0.00387085066f,
 -0.00374771911f, -0.00362453517f, -0.00350130349f, -0.00337802805f, -0.00325471349f, -0.00313136377f, -0.00300798332f, -0.00288457656f,
 -0.00276114768f, -0.00263770088f, -0.00251424056f, -0.00239077094f, -0.00226729643f, -0.00214382098f, -0.00202034926f, -0.00189688546f,
 -0.00177343376f, -0.00164999836f, -0.00152658368f, -0.0014031938f, -0.00127983326f, -0.00115650601f, -0.00103321648f, -0.00090996892f,
 -0.000786767458f, -0.000663616403f, -0.000540520065f, -0.000417482515f, -0.000294508092f, -0.000171601001f, -4.87654142e-05f, 7.39944226e-05f,
 0.000196674315f, 0.000319270068f, 0.000441777491f, 0.000564192364f, 0.000686510582f, 0.000808727869f, 0.000930840091f, 0.00105284317f,
 0.00117473281f, 0.00129650498f, 0.00141815539f, 0.00153968006f, 0.00166107481f, 0.00178233546f, 0.00190345792f, 0.00202443823f,
 0.00214527198f, 0.00226595532f, 0.00238648406f, 0.00250685425f, 0.00262706168f, 0.00274710217f, 0.002866972f, 0.00298666698f,
 0.00310618314f, 0.00322551606f, 0.00334466225f, 0.00346361753f, 0.00358237769f, 0.00370093901f, 0.0038192973f, 0.00393744884f,
 0.0040553892f, 0.0041731149f, 0.00429062173f, 0.00440790644f, 0.00452496391f, 0.00464179087f, 0.00475838361f, 0.00487473793f,
 0.00499085011f, 0.00510671595f, 0.0052223322f, 0.00533769466f, 0.00545279915f, 0.00556764239f, 0.00568222068f, 0.00579652935f,
 0.00591056561f, 0.0060243248f, 0.00613780413f, 0.00625099894f, 0.00636390597f, 0.00647652149f, 0.00658884132f, 0.0067008622f,
 0.0068125804f, 0.00692399219f, 0.00703509385f, 0.00714588212f, 0.00725635281f, 0.00736650219f, 0.00747632701f, 0.007585824f,
 0.00769498898f, 0.00780381868f, 0.00791230891f, 0.00802045688f, 0.00812825933f, 0.0082357116f, 0.00834281184f, 0.00844955444f,
 0.00855593756f, 0.00866195746f, 0.00876760948f, 0.00887289178f, 0.00897780061f, 0.00908233225f, 0.00918648299f, 0.00929025002f,
 0.00939362962f, 0.00949661899f, 0.00959921442f, 0.00970141217f, 0.00980320945f, 0.00990460347f, 0.0100055896f, 0.0101061668f,
 0.0102063296f, 0.0103060752f, 0.0104054017f, 0.0105043054f, 0.0106027815f, 0.0107008293f, 0.010798444f, 0.0108956238f,
 0.010992364f, 0.0110886628f, 0.0111845173f, 0.0112799229f, 0.0113748787f, 0.01146938f, 0.011563424f, 0.011657008f,
 0.01175013f, 0.0118427854f, 0.0119349724f, 0.0120266881f, 0.0121179288f, 0.0122086927f, 0.0122989761f, 0.012388777f,
 0.0124780918f, 0.0125669176f, 0.0126552526f, 0.0127430931f, 0.0128304362f, 0.0129172811f, 0.0130036222f, 0.0130894594f,
 0.013174789f, 0.0132596074f, 0.0133439144f, 0.0134277046f, 0.0135109778f, 0.0135937296f, 0.0136759588f, 0.0137576619f,
 0.0138388369f, 0.013919482f, 0.0139995934f, 0.0140791694f, 0.014158207f, 0.0142367044f, 0.0143146589f, 0.0143920695f,
 0.0144689316f, 0.0145452442f, 0.0146210045f, 0.0146962106f, 0.0147708599f, 0.0148449512f, 0.014918481f, 0.0149914473f,
 0.0150638483f, 0.0151356813f, 0.0152069451f, 0.0152776372f, 0.0153477555f, 0.0154172974f, 0.0154862618f, 0.0155546451f,
 0.0156224472f, 0.0156896655f, 0.0157562979f, 0.0158223417f, 0.015887795f, 0.0159526579f, 0.0160169266f, 0.0160805993f,
 0.0161436759f, 0.0162061527f, 0.0162680279f, 0.0163293015f, 0.0163899697f, 0.0164500326f, 0.0165094882f, 0.0165683329f,
 0.0166265666f, 0.0166841894f, 0.0167411957f, 0.0167975854f, 0.0168533586f, 0.0169085134f, 0.016963046f, 0.0170169584f,
 0.017070245f, 0.0171229076f, 0.0171749443f, 0.0172263533f, 0.0172771309f, 0.0173272789f, 0.0173767954f, 0.0174256787f,
 0.0174739268f, 0.0175215378f, 0.0175685138f, 0.0176148508f, 0.017660547f, 0.0177056026f, 0.0177500173f, 0.0177937895f,
 0.0178369153f, 0.0178793967f, 0.0179212335f, 0.0179624204f, 0.0180029608f, 0.0180428512f, 0.0180820897f, 0.0181206781f,
 0.0181586146f, 0.0181958973f, 0.0182325263f, 0.0182685014f, 0.018303819f, 0.018338481f, 0.0183724854f, 0.0184058324f,
 0.018438518f, 0.0184705462f, 0.018501915f, 0.0185326207f, 0.0185626652f, 0.0185920484f, 0.0186207686f, 0.0186488256f,
 0.0186762176f, 0.0187029447f, 0.0187290087f, 0.0187544059f, 0.0187791381f, 0.0188032035f, 0.0188266002f, 0.0188493319f,
 0.0188713949f, 0.0188927911f, 0.0189135186f, 0.0189335775f, 0.0189529676f, 0.018971689f, 0.0189897399f, 0.0190071221f,
 0.0190238357f, 0.0190398768f, 0.019055251f, 0.0190699529f, 0.0190839842f, 0.0190973468f, 0.0191100389f, 0.0191220604f,
 0.0191334113f, 0.0191440918f, 0.0191541035f, 0.0191634428f, 0.0191721134f, 0.0191801134f, 0.0191874448f, 0.0191941056f,
 0.0192000978f, 0.0192054193f, 0.0192100722f, 0.0192140564f, 0.0192173738f, 0.0192200206f, 0.0192220006f, 0.0192233138f,
 0.0192239583f, 0.0192239378f, 0.0192232504f, 0.0192218963f, 0.0192198772f, 0.0192171931f, 0.019213846f, 0.0192098338f,
 0.0192051567f, 0.0191998184f, 0.0191938188f, 0.0191871561f, 0.0191798341f, 0.0191718508f, 0.0191632081f, 0.0191539079f,
 0.0191439483f, 0.0191333313f, 0.0191220585f, 0.0191101301f, 0.0190975461f, 0.0190843083f, 0.0190704167f, 0.0190558732f,
 0.0190406777f, 0.0190248322f, 0.0190083385f, 0.0189911947f, 0.0189734045f, 0.0189549662f, 0.0189358834f, 0.0189161561f,
 0.0188957863f, 0.0188747738f, 0.0188531186f, 0.0188308265f, 0.0188078936f, 0.0187843237f, 0.0187601168f, 0.0187352747f,
 0.0187097993f, 0.0186836924f, 0.0186569523f, 0.0186295845f, 0.0186015852f, 0.0185729619f, 0.0185437109f, 0.018513836f,
 0.018483337f, 0.0184522178f, 0.0184204765f, 0.0183881186f, 0.0183551423f, 0.0183215514f, 0.0182873458f, 0.0182525292f,
 0.0182170998f, 0.0181810614f, 0.0181444157f, 0.0181071647f, 0.0180693083f, 0.0180308502f, 0.0179917905f, 0.017952133f,
 0.0179118756f, 0.0178710241f, 0.0178295784f, 0.0177875403f, 0.0177449137f, 0.0177016966f, 0.0176578946f, 0.0176135059f,
 0.0175685361f, 0.0175229851f, 0.0174768548f, 0.0174301472f, 0.0173828658f, 0.0173350107f, 0.0172865856f, 0.0172375906f,
 0.0171880294f, 0.0171379019f, 0.0170872137f, 0.0170359649f, 0.0169841554f, 0.0169317909f, 0.0168788731f, 0.0168254022f,
 0.0167713817f, 0.0167168155f, 0.0166617017f, 0.0166060459f, 0.016549848f, 0.0164931137f, 0.0164358411f, 0.0163780358f,
 0.0163196977f, 0.0162608325f, 0.0162014384f, 0.0161415208f, 0.0160810817f, 0.0160201229f, 0.0159586463f, 0.0158966556f,
 0.0158341508f, 0.0157711376f, 0.0157076176f, 0.0156435929f, 0.0155790653f, 0.0155140385f, 0.0154485134f, 0.0153824948f,
 0.0153159844f, 0.0152489841f, 0.0151814977f, 0.015113527f, 0.0150450747f, 0.0149761438f, 0.014906737f, 0.0148368571f,
 0.0147665059f, 0.0146956872f, 0.0146244038f, 0.0145526575f, 0.0144804521f, 0.0144077893f, 0.0143346731f, 0.0142611051f,
 0.0141870892f, 0.0141126271f, 0.0140377227f, 0.0139623787f, 0.0138865979f, 0.0138103832f, 0.0137337372f, 0.0136566628f,
 0.0135791637f, 0.0135012418f, 0.0134229008f, 0.0133441435f, 0.0132649727f, 0.0131853921f, 0.0131054036f, 0.0130250119f,
 0.0129442178f, 0.012863026f, 0.0127814384f, 0.0126994597f, 0.0126170907f, 0.0125343371f, 0.0124511998f, 0.0123676835f,
 0.0122837909f, 0.0121995239f, 0.0121148871f, 0.0120298835f, 0.0119445156f, 0.0118587874f, 0.0117727015f, 0.0116862617f,
 0.0115994699f, 0.0115123307f, 0.0114248469f, 0.0113370223f, 0.0112488586f, 0.0111603606f, 0.0110715311f, 0.0109823728f,
 0.0108928904f, 0.0108030858f, 0.0107129626f, 0.0106225247f, 0.0105317747f, 0.0104407165f, 0.0103493528f, 0.0102576884f,
 0.0101657249f, 0.0100734662f, 0.00998091698f, 0.00988807902f, 0.00979495607f, 0.00970155187f, 0.0096078692f, 0.00951391272f,
 0.00941968523f, 0.00932518952f, 0.00923043024f, 0.00913540926f, 0.00904013123f, 0.00894459989f, 0.00884881802f, 0.00875278842f,
 0.00865651667f, 0.00856000371f, 0.00846325513f, 0.00836627278f, 0.00826906133f, 0.0081716245f, 0.00807396509f, 0.00797608588f,
 0.00787799247f, 0.00777968625f, 0.00768117234f, 0.00758245308f, 0.00748353312f, 0.00738441525f, 0.00728510367f, 0.00718560116f,
 0.00708591146f, 0.00698603876f, 0.00688598631f, 0.00678575737f, 0.00668535614f, 0.00658478541f, 0.00648404937f, 0.00638315128f,
 0.00628209487f, 0.00618088432f, 0.00607952196f, 0.00597801246f, 0.00587635906f, 0.00577456551f, 0.00567263551f, 0.00557057187f,
 0.00546837924f, 0.00536606088f, 0.00526362006f, 0.00516106095f, 0.00505838683f, 0.00495560188f, 0.00485270889f, 0.0047497116f,
 0.00464661419f, 0.00454342039f, 0.00444013299f, 0.00433675619f, 0.0042332937f, 0.00412974926f, 0.00402612612f, 0.003922428f,
 0.00381865841f, 0.0037148213f, 0.00361092039f, 0.00350695895f, 0.00340294093f, 0.00329886982f, 0.00319474912f, 0.00309058279f,
 0.00298637431f, 0.00288212742f, 0.0027778456f, 0.00267353235f, 0.00256919162f, 0.00246482715f, 0.00236044195f, 0.00225604023f,
 0.00215162546f, 0.00204720139f, 0.00194277125f, 0.00183833891f, 0.00173390808f, 0.00162948226f, 0.00152506516f, 0.00142066018f,
 0.00131627114f, 0.00121190166f, 0.00110755523f, 0.00100323546f, 0.00089894596f, 0.000794690393f, 0.000690472254f, 0.000586295209f,
 0.00048216281f, 0.000378078636f, 0.000274046295f, 0.000170069325f, 6.61512968e-05f, -3.77042161e-05f, -0.000141493656f, -0.00024521345f,
 -0.000348860078f, -0.000452429958f, -0.0005559196f, -0.000659325393f, -0.000762643875f, -0.000865871494f, -0.000969004701f, -0.00107204006f,
 -0.00117497391f, -0.00127780298f, -0.00138052355f, -0.00148313213f, -0.00158562546f, -0.00168799981f, -0.00179025193f, -0.0018923782f,
 -0.00199437514f, -0.00209623948f, -0.00219796738f, -0.00229955581f, -0.00240100129f, -0.00250230031f, -0.00260344916f, -0.00270444481f,
 -0.00280528399f, -0.00290596276f, -0.00300647807f, -0.00310682668f, -0.00320700486f, -0.00330700958f, -0.00340683712f, -0.00350648444f,
 -0.00360594806f, -0.00370522472f, -0.00380431092f, -0.00390320364f, -0.00400189916f, -0.0041003949f, -0.00419868669f, -0.00429677172f,
 -0.00439464673f, -0.00449230848f, -0.00458975323f, -0.00468697865f, -0.00478398101f, -0.00488075661f, -0.00497730309f, -0.00507361675f,
 -0.00516969431f, -0.00526553299f, -0.00536112906f, -0.0054564802f, -0.0055515822f, -0.00564643322f, -0.00574102858f, -0.00583536644f,
 -0.00592944352f, -0.00602325564f, -0.00611680094f, -0.00621007616f, -0.00630307756f, -0.00639580283f, -0.00648824824f, -0.00658041146f,
 -0.00667228876f, -0.00676387781f, -0.0068551749f, -0.00694617815f, -0.00703688338f, -0.00712728826f, -0.00721739f, -0.00730718486f,
 -0.00739667099f, -0.00748584466f, -0.00757470308f, -0.00766324392f, -0.00775146391f, -0.00783936027f, -0.00792692974f, -0.00801417045f,
 -0.00810107868f, -0.00818765163f, -0.00827388652f, -0.00835978147f, -0.00844533369f, -0.00853053853f, -0.00861539599f, -0.00869990047f,
 -0.00878405198f, -0.00886784587f, -0.00895128027f, -0.00903435238f, -0.00911705941f, -0.00919939857f, -0.00928136799f, -0.00936296489f,
 -0.00944418646f, -0.00952502899f, -0.00960549153f, -0.00968557131f, -0.00976526551f, -0.00984457135f, -0.00992348604f, -0.0100020077f,
 -0.0100801345f, -0.0101578627f, -0.0102351904f, -0.0103121148f, -0.0103886342f, -0.0104647456f, -0.0105404463f, -0.0106157353f,
 -0.010690609f, -0.0107650654f, -0.0108391028f, -0.0109127183f, -0.010985909f, -0.0110586733f, -0.0111310091f, -0.0112029146f,
 -0.0112743862f, -0.0113454228f, -0.0114160217f, -0.0114861811f, -0.011555898f, -0.0116251716f, -0.0116939992f, -0.0117623778f,
 -0.0118303066f, -0.0118977828f, -0.0119648045f, -0.0120313698f, -0.0120974761f, -0.0121631222f, -0.0122283064f, -0.0122930259f,
 -0.0123572778f, -0.0124210622f, -0.0124843763f, -0.0125472182f, -0.0126095861f, -0.0126714772f, -0.0127328914f, -0.0127938259f,
 -0.012854279f, -0.0129142478f, -0.0129737323f, -0.0130327307f, -0.0130912401f, -0.0131492587f, -0.0132067855f, -0.0132638188f,
 -0.0133203575f, -0.013376398f, -0.0134319402f, -0.0134869833f, -0.0135415234f, -0.0135955606f, -0.013649093f, -0.0137021178f,
 -0.013754636f, -0.0138066439f, -0.0138581414f, -0.0139091257f, -0.0139595969f, -0.0140095521f, -0.0140589904f, -0.0141079109f,
 -0.0141563118f, -0.014204192f, -0.0142515497f, -0.0142983841f, -0.0143446932f, -0.014390477f, -0.0144357327f, -0.0144804604f,
 -0.0145246582f, -0.0145683251f, -0.0146114593f, -0.0146540599f, -0.0146961268f, -0.0147376573f, -0.0147786513f, -0.0148191079f,
 -0.0148590254f, -0.0148984026f, -0.0149372388f, -0.0149755329f, -0.015013285f, -0.0150504922f, -0.0150871547f, -0.0151232714f,
 -0.0151588414f, -0.0151938638f, -0.0152283376f, -0.015262262f, -0.0152956368f, -0.0153284604f, -0.0153607316f, -0.0153924506f,
 -0.0154236155f, -0.0154542271f, -0.0154842837f, -0.0155137852f, -0.0155427307f, -0.0155711183f, -0.015598949f, -0.0156262219f,
 -0.015652936f, -0.0156790912f, -0.0157046858f, -0.0157297198f, -0.0157541949f, -0.0157781057f, -0.0158014577f, -0.0158242453f,
 -0.0158464704f, -0.0158681329f, -0.0158892311f, -0.0159097668f, -0.0159297362f, -0.0159491431f, -0.0159679838f, -0.01598626f,
 -0.0160039701f, -0.0160211138f, -0.0160376914f, -0.0160537045f, -0.0160691496f, -0.0160840284f, -0.0160983391f, -0.0161120854f,
 -0.0161252618f, -0.0161378738f, -0.0161499158f, -0.0161613934f, -0.016172301f, -0.0161826424f, -0.0161924157f, -0.0162016228f,
 -0.0162102617f, -0.0162183326f, -0.0162258372f, -0.0162327755f, -0.0162391458f, -0.0162449498f, -0.0162501857f, -0.0162548553f,
 -0.0162589587f, -0.0162624959f, -0.0162654687f, -0.0162678733f, -0.0162697136f, -0.0162709896f, -0.0162716992f, -0.0162718464f,
 -0.0162714273f, -0.0162704457f, -0.0162688997f, -0.0162667911f, -0.0162641201f, -0.0162608866f, -0.0162570924f, -0.0162527356f,
 -0.0162478182f, -0.0162423421f, -0.0162363052f, -0.0162297096f, -0.0162225552f, -0.016214842f, -0.0162065737f, -0.0161977466f,
 -0.0161883645f, -0.0161784273f, -0.016167935f, -0.0161568895f, -0.0161452889f, -0.016133137f, -0.0161204338f, -0.0161071792f,
 -0.0160933752f, -0.0160790216f, -0.0160641186f, -0.016048668f, -0.0160326716f, -0.0160161294f, -0.0159990415f, -0.0159814116f,
 -0.0159632359f, -0.01594452f, -0.0159252621f, -0.0159054641f, -0.0158851277f, -0.015864253f, -0.0158428419f, -0.0158208944f,
 -0.0157984123f, -0.0157753956f, -0.015751848f, -0.0157277677f, -0.0157031566f, -0.0156780183f, -0.0156523511f, -0.0156261567f,
 -0.0155994389f, -0.0155721949f, -0.0155444294f, -0.0155161414f, -0.0154873338f, -0.0154580064f, -0.0154281622f, -0.015397802f,
 -0.0153669259f, -0.0153355366f, -0.015303636f, -0.0152712241f, -0.0152383028f, -0.0152048739f, -0.0151709393f, -0.015136499f,
 -0.0151015557f, -0.0150661115f, -0.0150301661f, -0.0149937226f, -0.0149567816f, -0.0149193453f, -0.0148814144f, -0.0148429926f,
 -0.0148040792f, -0.0147646768f, -0.0147247873f, -0.0146844126f, -0.0146435536f, -0.0146022122f, -0.0145603912f, -0.0145180905f,
 -0.014475313f, -0.0144320605f, -0.0143883349f, -0.0143441372f, -0.01429947f, -0.0142543353f, -0.014208734f, -0.014162669f,
 -0.014116141f, -0.014069153f, -0.0140217068f, -0.0139738042f, -0.0139254462f, -0.0138766365f, -0.0138273751f, -0.0137776658f,
 -0.0137275094f, -0.0136769088f, -0.0136258658f, -0.0135743814f, -0.0135224592f, -0.0134701002f, -0.0134173064f, -0.0133640803f,
 -0.013310425f, -0.0132563412f, -0.0132018318f, -0.0131468978f, -0.0130915428f, -0.0130357686f, -0.0129795773f, -0.0129229706f,
 -0.0128659513f, -0.0128085222f, -0.0127506843f, -0.0126924403f, -0.0126337921f, -0.0125747425f, -0.0125152944f, -0.0124554494f,
 -0.0123952096f, -0.0123345777f, -0.0122735556f, -0.012212147f, -0.0121503528f, -0.0120881749f, -0.012025618f, -0.0119626829f,
 -0.0118993716f, -0.0118356878f, -0.0117716333f, -0.01170721f, -0.0116424216f, -0.01157727f, -0.011511757f, -0.0114458865f,
 -0.0113796592f, -0.0113130799f, -0.0112461494f, -0.0111788707f, -0.0111112455f, -0.0110432785f, -0.0109749697f, -0.0109063238f,
 -0.0108373426f, -0.0107680289f, -0.0106983846f, -0.0106284125f, -0.0105581162f, -0.0104874978f, -0.0104165589f, -0.0103453035f,
 -0.0102737341f, -0.0102018528f, -0.0101296622f, -0.0100571662f, -0.0099843666f, -0.00991126616f, -0.00983786676f, -0.00976417307f,
 -0.00969018601f, -0.00961591024f, -0.00954134669f, -0.00946649816f, -0.00939136837f, -0.00931596011f, -0.00924027618f, -0.00916431844f,
 -0.00908809062f, -0.00901159551f, -0.00893483497f, -0.00885781273f, -0.00878053159f, -0.00870299432f, -0.00862520374f, -0.00854716171f,
 -0.00846887287f, -0.00839033816f, -0.00831156224f, -0.00823254697f, -0.00815329608f, -0.00807381142f, -0.00799409673f, -0.00791415386f,
 -0.00783398747f, -0.0077535985f, -0.00767299114f, -0.00759216771f, -0.00751113193f, -0.00742988568f, -0.00734843267f, -0.0072667757f,
 -0.00718491804f, -0.007102862f, -0.00702061038f, -0.00693816692f, -0.00685553439f, -0.0067727156f, -0.0066897138f, -0.00660653133f,
 -0.00652317191f, -0.00643963832f, -0.00635593338f, -0.00627206033f, -0.00618802244f, -0.00610382203f, -0.00601946237f, -0.0059349467f,
 -0.00585027784f, -0.00576545857f, -0.00568049261f, -0.00559538277f, -0.00551013183f, -0.00542474305f, -0.00533921923f, -0.00525356364f,
 -0.00516777951f, -0.00508186966f, -0.00499583688f, -0.00490968442f, -0.00482341554f, -0.00473703351f, -0.00465054065f, -0.00456394069f,
 -0.00447723642f, -0.00439043064f, -0.00430352706f, -0.0042165285f, -0.00412943773f, -0.00404225802f, -0.00395499263f, -0.00386764458f,
 -0.00378021668f, -0.00369271217f, -0.00360513432f, -0.00351748592f, -0.00342977024f, -0.00334199029f, -0.00325414911f, -0.00316624995f,
 -0.00307829562f, -0.00299028959f, -0.00290223444f, -0.00281413388f, -0.00272599049f, -0.00263780728f, -0.00254958798f, -0.00246133492f,
 -0.0023730516f, -0.00228474103f, -0.00219640648f, -0.00210805051f, -0.00201967661f, -0.00193128781f, -0.00184288714f, -0.00175447762f,
 -0.00166606228f, -0.00157764438f, -0.00148922682f, -0.00140081276f, -0.00131240522f, -0.00122400722f, -0.00113562192f, -0.00104725233f,
 -0.000958901481f, -0.000870572403f, -0.000782268238f, -0.000693991955f, -0.00060574658f, -0.000517535256f, -0.000429360894f, -0.000341226609f,
 -0.000253135426f, -0.000165090358f, -7.70944316e-05f, 1.08493405e-05f, 9.87379317e-05f, 0.00018656833f, 0.000274337537f, 0.000362042541f,
 0.000449680316f, 0.000537247921f, 0.000624742301f, 0.000712160545f, 0.000799499569f, 0.000886756461f, 0.000973928254f, 0.00106101192f,
 0.00114800455f, 0.00123490323f, 0.00132170483f, 0.00140840665f, 0.00149500545f, 0.00158149854f, 0.0016678829f, 0.00175415562f,
 0.00184031366f, 0.00192635425f, 0.00201227446f, 0.00209807139f, 0.00218374212f, 0.00226928364f, 0.00235469313f, 0.00243996806f,
 0.00252510491f, 0.00261010136f, 0.00269495416f, 0.00277966075f, 0.00286421832f, 0.00294862362f, 0.00303287432f, 0.00311696716f,
 0.00320089981f, 0.00328466878f, 0.00336827198f, 0.00345170614f, 0.00353496871f, 0.00361805689f, 0.00370096765f, 0.00378369843f,
 0.00386624667f, 0.00394860934f, 0.00403078366f, 0.00411276706f, 0.00419455674f, 0.00427614991f, 0.00435754424f, 0.00443873694f,
 0.00451972475f, 0.00460050534f, 0.00468107639f, 0.00476143463f, 0.00484157773f, 0.00492150337f, 0.00500120828f, 0.00508069014f,
 0.00515994616f, 0.005238974f, 0.00531777088f, 0.00539633445f, 0.00547466194f, 0.00555275055f, 0.00563059794f, 0.00570820179f,
 0.0057855593f, 0.00586266816f, 0.00593952555f, 0.00601612916f, 0.00609247666f, 0.00616856478f, 0.00624439213f, 0.00631995546f,
 0.00639525242f, 0.00647028117f, 0.00654503843f, 0.00661952235f, 0.00669373013f, 0.00676765991f, 0.00684130844f, 0.0069146743f,
 0.00698775472f, 0.00706054689f, 0.00713304942f, 0.00720525905f, 0.00727717392f, 0.0073487917f, 0.00742011005f, 0.00749112666f,
 0.00756183965f, 0.00763224578f, 0.00770234363f, 0.00777213089f, 0.00784160476f, 0.00791076384f, 0.00797960535f, 0.00804812741f,
 0.00811632723f, 0.00818420388f, 0.00825175457f, 0.0083189765f, 0.00838586781f, 0.00845242757f, 0.00851865206f, 0.00858454034f,
 0.00865008961f, 0.00871529803f, 0.00878016371f, 0.00884468481f, 0.00890885852f, 0.00897268299f, 0.00903615728f, 0.0090992786f,
 0.00916204508f, 0.00922445487f, 0.0092865061f, 0.00934819598f, 0.0094095245f, 0.00947048701f, 0.00953108445f, 0.00959131308f,
 0.00965117104f, 0.00971065834f, 0.00976977125f, 0.0098285079f, 0.0098868683f, 0.00994484872f, 0.0100024482f, 0.0100596659f,
 0.010116498f, 0.0101729445f, 0.0102290027f, 0.0102846716f, 0.0103399493f, 0.010394834f, 0.0104493238f, 0.0105034178f,
 0.0105571132f, 0.0106104091f, 0.0106633045f, 0.0107157966f, 0.0107678855f, 0.0108195674f, 0.0108708423f, 0.0109217083f,
 0.0109721646f, 0.0110222083f, 0.0110718384f, 0.0111210542f, 0.0111698536f, 0.0112182358f, 0.011266198f, 0.0113137402f,
 0.0113608604f, 0.0114075569f, 0.0114538297f, 0.0114996759f, 0.0115450947f, 0.011590085f, 0.0116346451f, 0.0116787748f,
 0.0117224716f, 0.0117657343f, 0.0118085621f, 0.011850955f, 0.0118929092f, 0.0119344257f, 0.0119755017f, 0.0120161381f,
 0.0120563312f, 0.0120960819f, 0.0121353883f, 0.0121742496f, 0.0122126648f, 0.012250632f, 0.0122881513f, 0.0123252207f,
 0.0123618403f, 0.0123980073f, 0.0124337226f, 0.0124689853f, 0.0125037925f, 0.0125381453f, 0.0125720408f, 0.0126054799f,
 0.0126384618f, 0.0126709845f, 0.0127030471f, 0.0127346497f, 0.0127657903f, 0.01279647f, 0.0128266867f, 0.0128564388f,
 0.0128857279f, 0.0129145514f, 0.0129429093f, 0.0129708005f, 0.0129982242f, 0.0130251804f, 0.0130516691f, 0.0130776875f,
 0.0131032374f, 0.013128316f, 0.0131529244f, 0.0131770615f, 0.0132007264f, 0.0132239182f, 0.0132466378f, 0.0132688843f,
 0.0132906558f, 0.0133119542f, 0.0133327767f, 0.0133531243f, 0.0133729959f, 0.0133923925f, 0.0134113114f, 0.0134297544f,
 0.0134477196f, 0.013465208f, 0.0134822186f, 0.0134987505f, 0.0135148047f, 0.0135303801f, 0.0135454768f, 0.0135600939f,
 0.0135742323f, 0.0135878911f, 0.0136010703f, 0.0136137689f, 0.0136259887f, 0.0136377281f, 0.0136489868f, 0.0136597659f,
 0.0136700645f, 0.0136798825f, 0.01368922f, 0.0136980778f, 0.013706455f, 0.0137143508f, 0.0137217669f, 0.0137287024f,
 0.0137351574f, 0.0137411328f, 0.0137466276f, 0.0137516428f, 0.0137561774f, 0.0137602324f, 0.0137638086f, 0.0137669044f,
 0.0137695214f, 0.0137716588f, 0.0137733184f, 0.0137744984f, 0.0137752006f, 0.013775425f, 0.0137751717f, 0.0137744406f,
 0.0137732318f, 0.013771547f, 0.0137693854f, 0.0137667479f, 0.0137636354f, 0.013760047f, 0.0137559837f, 0.0137514463f,
 0.0137464339f, 0.0137409493f, 0.0137349917f, 0.0137285609f, 0.0137216579f, 0.0137142846f, 0.0137064401f, 0.0136981243f,
 0.0136893401f, 0.0136800855f, 0.0136703635f, 0.0136601729f, 0.0136495149f, 0.0136383912f, 0.0136268009f, 0.0136147458f,
 0.013602226f, 0.0135892425f, 0.0135757951f, 0.0135618867f, 0.0135475164f, 0.0135326851f, 0.0135173937f, 0.0135016432f,
 0.0134854354f, 0.0134687694f, 0.013451647f, 0.0134340683f, 0.0134160351f, 0.0133975483f, 0.013378609f, 0.013359217f,
 0.0133393742f, 0.0133190807f, 0.0132983392f, 0.0132771488f, 0.0132555114f, 0.0132334279f, 0.0132109001f, 0.0131879272f,
 0.0131645119f, 0.0131406551f, 0.0131163578f, 0.0130916201f, 0.0130664445f, 0.0130408313f, 0.0130147822f, 0.0129882982f,
 0.0129613802f, 0.01293403f, 0.0129062487f, 0.0128780361f, 0.0128493952f, 0.0128203277f, 0.0127908327f, 0.012760913f,
 0.0127305696f, 0.0126998033f, 0.0126686171f, 0.0126370098f, 0.0126049854f, 0.0125725428f, 0.0125396848f, 0.0125064133f,
 0.0124727283f, 0.0124386325f, 0.0124041261f, 0.0123692118f, 0.0123338904f, 0.012298163f, 0.0122620314f, 0.0122254984f,
 0.0121885631f, 0.0121512292f, 0.0121134967f, 0.0120753683f, 0.0120368451f, 0.0119979279f, 0.0119586196f, 0.011918921f,
 0.011878835f, 0.0118383607f, 0.0117975026f, 0.0117562599f, 0.0117146363f, 0.0116726318f, 0.0116302492f, 0.0115874903f,
 0.0115443561f, 0.0115008485f, 0.0114569692f, 0.0114127202f, 0.0113681033f, 0.0113231195f, 0.0112777725f, 0.0112320622f,
 0.0111859906f, 0.0111395605f, 0.0110927736f, 0.011045631f, 0.0109981345f, 0.0109502869f, 0.0109020891f, 0.0108535439f,
 0.0108046532f, 0.0107554179f, 0.0107058398f, 0.0106559228f, 0.0106056668f, 0.0105550746f, 0.0105041489f, 0.0104528898f,
 0.0104013011f, 0.0103493836f, 0.0102971401f, 0.0102445716f, 0.0101916818f, 0.0101384707f, 0.010084942f, 0.0100310966f,
 0.00997693744f, 0.00992246717f, 0.00986768585f, 0.00981259719f, 0.00975720212f, 0.00970150344f, 0.00964550395f, 0.00958920456f,
 0.00953260902f, 0.00947571732f, 0.00941853225f, 0.00936105754f, 0.00930329412f, 0.00924524385f, 0.00918690953f, 0.00912829302f,
 0.00906939711f, 0.00901022274f, 0.00895077363f, 0.00889105164f, 0.00883105863f, 0.00877079647f, 0.00871026888f, 0.00864947587f,
 0.00858842209f, 0.00852710847f, 0.0084655378f, 0.00840371195f, 0.00834163371f, 0.00827930495f, 0.00821672752f, 0.00815390516f,
 0.00809083879f, 0.00802753214f, 0.00796398614f, 0.00790020451f, 0.00783618819f, 0.0077719409f, 0.00770746404f, 0.00764275994f,
 0.00757783186f, 0.00751268165f, 0.00744731165f, 0.00738172466f, 0.00731592253f, 0.00724990806f, 0.00718368357f, 0.0071172514f,
 0.00705061434f, 0.00698377425f, 0.00691673392f, 0.00684949569f, 0.00678206235f, 0.00671443623f, 0.00664661918f, 0.00657861447f,
 0.00651042443f, 0.00644205092f, 0.00637349719f, 0.00630476512f, 0.00623585796f, 0.00616677757f, 0.00609752676f, 0.00602810783f,
 0.00595852314f, 0.00588877546f, 0.00581886759f, 0.00574880186f, 0.00567858061f, 0.00560820615f, 0.00553768175f, 0.00546700926f,
 0.0053961915f, 0.00532523124f, 0.00525413081f, 0.00518289255f, 0.00511151925f, 0.0050400137f, 0.00496837823f, 0.00489661517f,
 0.00482472731f, 0.00475271745f, 0.00468058744f, 0.00460834103f, 0.00453597959f, 0.0044635064f, 0.00439092377f, 0.00431823451f,
 0.00424544141f, 0.00417254632f, 0.00409955252f, 0.00402646186f, 0.00395327806f, 0.00388000254f, 0.00380663853f, 0.00373318885f,
 0.00365965534f, 0.00358604128f, 0.00351234921f, 0.00343858125f, 0.00336474041f, 0.00329082925f, 0.00321685034f, 0.00314280624f,
 0.00306869973f, 0.00299453316f, 0.00292030931f, 0.00284603075f, 0.00277170003f, 0.00269731972f, 0.00262289285f, 0.0025484215f,
 0.00247390848f, 0.00239935657f, 0.00232476811f, 0.00225014566f, 0.00217549223f, 0.00210081018f, 0.00202610204f, 0.00195137062f,
 0.00187661836f, 0.00180184795f, 0.00172706193f, 0.00165226287f, 0.00157745357f, 0.00150263647f, 0.00142781413f, 0.00135298935f,
 0.00127816445f, 0.00120334234f, 0.00112852536f, 0.00105371617f, 0.000978917349f, 0.000904131623f, 0.000829361437f, 0.000754609355f,
 0.000679878052f, 0.000605170091f, 0.000530487974f, 0.000455834379f, 0.000381211808f, 0.000306622824f, 0.000232070044f, 0.000157556002f,
 8.30832505e-05f, 8.65435413e-06f, -6.57281271e-05f, -0.000140061646f, -0.000214343658f, -0.000288571609f, -0.000362742983f, -0.000436855218f,
 -0.000510905753f, -0.000584892114f, -0.000658811769f, -0.000732662156f, -0.000806440832f, -0.000880145177f, -0.000953772746f, -0.00102732109f,
 -0.00110078754f, -0.00117416971f, -0.00124746514f, -0.00132067129f, -0.0013937857f, -0.00146680593f, -0.0015397293f, -0.00161255361f,
 -0.00168527628f, -0.00175789488f, -0.00183040684f, -0.00190280983f, -0.00197510142f, -0.00204727915f, -0.00211934047f, -0.00219128304f,
 -0.00226310454f, -0.00233480241f, -0.00240637432f, -0.00247781794f, -0.0025491307f, -0.00262031006f, -0.00269135414f, -0.00276226015f,
 -0.002833026f, -0.00290364912f, -0.00297412695f, -0.00304445764f, -0.00311463862f, -0.00318466732f, -0.00325454166f, -0.00332425931f,
 -0.00339381793f, -0.00346321519f, -0.00353244878f, -0.00360151636f, -0.00367041561f, -0.00373914419f, -0.00380770024f, -0.00387608097f,
 -0.00394428428f, -0.00401230808f, -0.00408015028f, -0.00414780807f, -0.00421527959f, -0.00428256253f, -0.00434965454f, -0.00441655377f,
 -0.00448325789f, -0.00454976456f, -0.00461607147f, -0.00468217675f, -0.00474807806f, -0.00481377356f, -0.0048792609f, -0.00494453777f,
 -0.00500960229f, -0.00507445168f, -0.005139085f, -0.00520349899f, -0.00526769226f, -0.00533166295f, -0.00539540779f, -0.00545892585f,
 -0.00552221481f, -0.00558527233f, -0.00564809656f, -0.00571068563f, -0.00577303721f, -0.00583514944f, -0.00589702046f, -0.00595864793f,
 -0.00602003001f, -0.00608116435f, -0.00614205003f, -0.00620268425f, -0.00626306515f, -0.00632319087f, -0.00638305955f, -0.00644266978f,
 -0.00650201831f, -0.00656110467f, -0.00661992608f, -0.00667848112f, -0.00673676748f, -0.00679478375f, -0.00685252808f, -0.00690999813f,
 -0.00696719298f, -0.00702410983f, -0.00708074728f, -0.00713710394f, -0.00719317747f, -0.00724896602f, -0.00730446866f, -0.00735968258f,
 -0.00741460687f, -0.00746923964f, -0.00752357859f, -0.00757762277f, -0.00763137033f, -0.0076848194f, -0.00773796812f, -0.00779081509f,
 -0.00784335937f, -0.00789559726f, -0.00794752967f, -0.00799915381f, -0.00805046782f, -0.00810146984f, -0.00815215893f, -0.00820253417f,
 -0.00825259276f, -0.00830233376f, -0.00835175626f, -0.00840085745f, -0.0084496364f, -0.00849809125f, -0.008546222f, -0.00859402493f,
 -0.00864150096f, -0.00868864637f, -0.00873546116f, -0.0087819444f, -0.0088280933f, -0.00887390692f, -0.0089193834f, -0.00896452274f,
 -0.00900932308f, -0.00905378163f, -0.00909789931f, -0.00914167333f, -0.00918510277f, -0.00922818668f, -0.00927092321f, -0.00931331143f,
 -0.0093553504f, -0.00939703826f, -0.00943837315f, -0.009479356f, -0.00951998401f, -0.00956025627f, -0.00960017089f, -0.00963972788f,
 -0.00967892632f, -0.00971776433f, -0.00975624006f, -0.00979435444f, -0.00983210467f, -0.00986948982f, -0.00990650989f, -0.00994316209f,
 -0.00997944735f, -0.0100153629f, -0.0100509096f, -0.0100860847f, -0.0101208882f, -0.0101553183f, -0.0101893749f, -0.0102230571f,
 -0.0102563631f, -0.0102892928f, -0.0103218444f, -0.0103540178f, -0.0103858123f, -0.0104172267f, -0.0104482593f, -0.010478911f,
 -0.010509179f, -0.0105390642f, -0.0105685648f, -0.0105976807f, -0.0106264101f, -0.010654754f, -0.0106827095f, -0.0107102776f,
 -0.0107374564f, -0.0107642459f, -0.0107906461f, -0.0108166542f, -0.0108422711f, -0.010867497f, -0.0108923288f, -0.0109167676f,
 -0.0109408135f, -0.0109644635f, -0.0109877186f, -0.0110105788f, -0.0110330423f, -0.0110551091f, -0.0110767782f, -0.0110980505f,
 -0.0111189233f, -0.0111393984f, -0.011159474f, -0.0111791501f, -0.0111984257f, -0.0112173017f, -0.0112357764f, -0.0112538496f,
 -0.0112715205f, -0.011288791f, -0.0113056581f, -0.011322123f, -0.0113381846f, -0.0113538429f, -0.011369097f, -0.0113839479f,
 -0.0113983946f, -0.0114124371f, -0.0114260754f, -0.0114393085f, -0.0114521366f, -0.0114645585f, -0.0114765763f, -0.0114881881f,
 -0.0114993947f, -0.0115101943f, -0.0115205888f, -0.0115305772f, -0.0115401596f, -0.0115493359f, -0.0115581052f, -0.0115664685f,
 -0.0115744257f, -0.011581976f, -0.0115891201f, -0.0115958583f, -0.0116021894f, -0.0116081145f, -0.0116136335f, -0.0116187464f,
 -0.0116234524f, -0.0116277533f, -0.0116316481f, -0.0116351368f, -0.0116382195f, -0.011640898f, -0.0116431694f, -0.0116450367f,
 -0.0116464989f, -0.011647556f, -0.0116482088f, -0.0116484575f, -0.011648302f, -0.0116477422f, -0.0116467793f, -0.011645413f,
 -0.0116436435f, -0.0116414716f, -0.0116388975f, -0.011635921f, -0.0116325431f, -0.0116287638f, -0.011624584f, -0.0116200037f,
 -0.011615023f, -0.0116096428f, -0.011603863f, -0.0115976855f, -0.0115911094f, -0.0115841348f, -0.0115767634f, -0.0115689952f,
 -0.0115608312f, -0.0115522705f, -0.0115433149f, -0.0115339654f, -0.0115242209f, -0.0115140835f, -0.011503553f, -0.0114926305f,
 -0.0114813158f, -0.011469611f, -0.0114575149f, -0.0114450296f, -0.011432155f, -0.011418893f, -0.0114052426f, -0.0113912057f,
 -0.0113767823f, -0.0113619734f, -0.0113467798f, -0.0113312025f, -0.0113152424f, -0.0112989005f, -0.0112821758f, -0.0112650711f,
 -0.0112475865f, -0.0112297228f, -0.0112114819f, -0.0111928629f, -0.0111738676f, -0.0111544961f, -0.0111347511f, -0.0111146327f,
 -0.0110941408f, -0.0110732773f, -0.0110520432f, -0.0110304384f, -0.0110084657f, -0.0109861251f, -0.0109634176f, -0.0109403441f,
 -0.0109169055f, -0.0108931037f, -0.0108689386f, -0.0108444123f, -0.0108195255f, -0.0107942792f, -0.0107686752f, -0.0107427128f,
 -0.0107163945f, -0.0106897214f, -0.0106626954f, -0.0106353154f, -0.0106075844f, -0.0105795031f, -0.0105510727f, -0.0105222948f,
 -0.0104931695f, -0.0104636988f, -0.0104338843f, -0.0104037262f, -0.0103732273f, -0.0103423875f, -0.0103112087f, -0.0102796918f,
 -0.0102478387f, -0.0102156503f, -0.0101831276f, -0.0101502724f, -0.0101170866f, -0.0100835701f, -0.0100497259f, -0.0100155547f,
 -0.00998105668f, -0.00994623546f, -0.00991109107f, -0.00987562537f, -0.0098398393f, -0.00980373472f, -0.00976731349f, -0.00973057561f,
 -0.0096935248f, -0.00965616014f, -0.00961848535f, -0.00958049949f, -0.0095422063f, -0.00950360671f, -0.00946470164f, -0.00942549296f,
 -0.00938598253f, -0.00934617128f, -0.00930606108f, -0.00926565379f, -0.00922495034f, -0.00918395352f, -0.00914266333f, -0.0091010835f,
 -0.0090592131f, -0.00901705585f, -0.00897461176f, -0.00893188361f, -0.00888887327f, -0.00884558167f, -0.00880201068f, -0.00875816215f,
 -0.00871403795f, -0.00866963901f, -0.00862496719f, -0.00858002529f, -0.00853481423f, -0.00848933589f, -0.00844359118f, -0.00839758385f,
 -0.00835131388f, -0.00830478314f, -0.00825799443f, -0.00821094867f, -0.00816364866f, -0.0081160944f, -0.00806828961f, -0.00802023523f,
 -0.00797193311f, -0.00792338513f, -0.00787459314f, -0.00782555901f, -0.00777628459f, -0.00772677176f, -0.0076770219f, -0.00762703782f,
 -0.00757682091f, -0.00752637303f, -0.00747569604f, -0.00742479181f, -0.00737366267f, -0.00732231f, -0.00727073615f, -0.00721894251f,
 -0.00716693141f, -0.00711470516f, -0.00706226472f, -0.00700961333f, -0.00695675146f, -0.00690368237f, -0.00685040746f, -0.00679692859f,
 -0.00674324809f, -0.00668936782f, -0.00663528917f, -0.00658101542f, -0.00652654748f, -0.0064718877f, -0.00641703838f, -0.00636200141f,
 -0.00630677864f, -0.00625137193f, -0.00619578362f, -0.00614001602f, -0.00608407054f, -0.00602794951f, -0.00597165525f, -0.00591518963f,
 -0.0058585545f, -0.00580175221f, -0.00574478507f, -0.00568765448f, -0.00563036278f, -0.00557291228f, -0.00551530533f, -0.0054575433f,
 -0.00539962901f, -0.00534156384f, -0.00528335012f, -0.00522499066f, -0.00516648684f, -0.00510784052f, -0.00504905498f, -0.00499013113f,
 -0.00493107177f, -0.00487187877f, -0.00481255492f, -0.00475310115f, -0.00469352072f, -0.00463381503f, -0.00457398687f, -0.0045140381f,
 -0.00445397059f, -0.00439378666f, -0.00433348864f, -0.00427307887f, -0.0042125592f, -0.0041519315f, -0.00409119856f, -0.00403036224f,
 -0.00396942487f, -0.00390838878f, -0.00384725537f, -0.00378602766f, -0.00372470752f, -0.00366329704f, -0.00360179879f, -0.00354021438f,
 -0.00347854639f, -0.00341679691f, -0.00335496827f, -0.00329306256f, -0.00323108188f, -0.00316902855f, -0.00310690468f, -0.00304471259f,
 -0.00298245437f, -0.00292013236f, -0.00285774842f, -0.00279530534f, -0.00273280474f, -0.0026702492f, -0.00260764081f, -0.00254498166f,
 -0.00248227408f, -0.0024195204f, -0.00235672249f, -0.00229388289f, -0.00223100372f, -0.00216808706f, -0.00210513524f, -0.00204215036f,
 -0.00197913474f, -0.00191609049f, -0.00185301981f, -0.00178992504f, -0.00172680826f, -0.00166367169f, -0.00160051766f, -0.00153734814f,
 -0.00147416559f, -0.00141097198f, -0.00134776963f, -0.00128456077f, -0.00122134748f, -0.0011581321f, -0.00109491672f, -0.00103170355f,
 -0.000968494802f, -0.000905292633f, -0.000842099253f, -0.000778916874f, -0.00071574765f, -0.000652593793f, -0.000589457457f, -0.000526340853f,
 -0.000463246106f, -0.000400175428f, -0.000337131001f, -0.00027411498f, -0.000211129533f, -0.000148176812f, -8.52590165e-05f, -2.2378279e-05f,
 4.04632337e-05f, 0.000103263359f, 0.000166019963f, 0.000228730874f, 0.000291393953f, 0.000354007061f, 0.000416568044f, 0.000479074806f,
 0.000541525136f, 0.000603916997f, 0.000666248146f, 0.000728516607f, 0.000790720107f, 0.00085285661f, 0.000914924021f, 0.000976920128f,
 0.00103884307f, 0.00110069045f, 0.00116246019f, 0.00122415042f, 0.00128575892f, 0.0013472836f, 0.00140872248f, 0.00147007324f,
 0.00153133401f, 0.0015925027f, 0.0016535772f, 0.00171455555f, 0.00177543552f, 0.00183621515f, 0.00189689244f, 0.00195746543f,
 0.00201793178f, 0.00207828963f, 0.00213853712f, 0.00219867192f, 0.00225869217f, 0.002318596f, 0.00237838109f, 0.00243804581f,
 0.00249758782f, 0.0025570055f, 0.00261629652f, 0.00267545902f, 0.0027344909f, 0.00279339054f, 0.00285215583f, 0.00291078468f,
 0.00296927523f, 0.00302762538f, 0.00308583351f, 0.00314389775f, 0.00320181553f, 0.0032595857f, 0.00331720593f, 0.00337467436f,
 0.00343198911f, 0.00348914834f, 0.00354615017f, 0.00360299251f, 0.00365967397f, 0.00371619221f, 0.00377254537f, 0.00382873206f,
 0.00388474995f, 0.00394059764f, 0.00399627304f, 0.00405177427f, 0.00410709949f, 0.00416224683f, 0.00421721535f, 0.0042720018f,
 0.0043266057f, 0.00438102428f, 0.00443525659f, 0.00448930031f, 0.00454315403f, 0.00459681591f, 0.00465028407f, 0.00470355665f,
 0.00475663226f, 0.00480950903f, 0.00486218557f, 0.00491465954f, 0.00496692955f, 0.00501899421f, 0.00507085165f, 0.00512250001f,
 0.00517393788f, 0.00522516342f, 0.00527617475f, 0.00532697095f, 0.00537754968f, 0.00542791001f, 0.00547804963f, 0.00552796759f,
 0.00557766156f, 0.00562713062f, 0.00567637337f, 0.00572538748f, 0.00577417156f, 0.0058227242f, 0.00587104447f, 0.00591912959f,
 0.00596697908f, 0.00601459108f, 0.0060619642f, 0.00610909704f, 0.00615598727f, 0.00620263442f, 0.00624903711f, 0.00629519299f,
 0.00634110114f, 0.00638675969f, 0.00643216819f, 0.00647732429f, 0.00652222708f, 0.00656687468f, 0.00661126664f, 0.00665540062f,
 0.00669927523f, 0.00674288999f, 0.00678624306f, 0.00682933256f, 0.00687215803f, 0.00691471808f, 0.00695701083f, 0.00699903537f,
 0.00704079028f, 0.00708227418f, 0.00712348614f, 0.00716442475f, 0.00720508862f, 0.00724547682f, 0.00728558749f, 0.00732542016f,
 0.00736497343f, 0.0074042459f, 0.00744323665f, 0.00748194428f, 0.00752036739f, 0.00755850552f, 0.00759635679f, 0.00763392076f,
 0.00767119555f, 0.0077081807f, 0.00774487481f, 0.00778127695f, 0.00781738572f, 0.00785320066f, 0.00788872037f, 0.00792394392f,
 0.00795886945f, 0.00799349695f, 0.0080278255f, 0.00806185324f, 0.00809557922f, 0.00812900346f, 0.00816212408f, 0.0081949411f,
 0.00822745264f, 0.00825965777f, 0.00829155557f, 0.00832314603f, 0.00835442729f, 0.00838539843f, 0.00841605943f, 0.00844640937f,
 0.00847644638f, 0.00850617047f, 0.00853557978f, 0.00856467523f, 0.00859345496f, 0.00862191711f, 0.00865006354f, 0.00867789052f,
 0.00870539993f, 0.00873258896f, 0.00875945855f, 0.00878600683f, 0.00881223287f, 0.00883813668f, 0.00886371825f, 0.00888897479f,
 0.00891390815f, 0.00893851556f, 0.008962797f, 0.00898675248f, 0.00901038107f, 0.00903368182f, 0.00905665476f, 0.009079298f,
 0.00910161249f, 0.00912359729f, 0.00914525148f, 0.00916657411f, 0.00918756519f, 0.00920822471f, 0.00922855176f, 0.00924854539f,
 0.00926820468f, 0.00928753149f, 0.00930652209f, 0.00932517927f, 0.00934350025f, 0.00936148595f, 0.00937913451f, 0.0093964478f,
 0.00941342302f, 0.00943006109f, 0.00944636203f, 0.0094623249f, 0.00947794877f, 0.00949323364f, 0.00950818043f, 0.0095227873f,
 0.00953705423f, 0.00955098215f, 0.00956456922f, 0.00957781635f, 0.00959072262f, 0.00960328802f, 0.00961551163f, 0.00962739438f,
 0.00963893626f, 0.00965013541f, 0.00966099277f, 0.00967150927f, 0.0096816821f, 0.00969151314f, 0.00970100239f, 0.00971014891f,
 0.00971895177f, 0.00972741283f, 0.00973553117f, 0.00974330679f, 0.00975073874f, 0.00975782797f, 0.00976457447f, 0.00977097824f,
 0.00977703836f, 0.00978275575f, 0.00978813041f, 0.00979316141f, 0.00979785062f, 0.00980219617f, 0.009806199f, 0.00980986003f,
 0.0098131774f, 0.00981615297f, 0.00981878582f, 0.00982107688f, 0.0098230252f, 0.00982463174f, 0.00982589647f, 0.00982682034f,
 0.00982740242f, 0.0098276427f, 0.00982754212f, 0.0098271016f, 0.00982631929f, 0.00982519798f, 0.0098237358f, 0.00982193369f,
 0.00981979258f, 0.00981731154f, 0.00981449243f, 0.00981133431f, 0.00980783813f, 0.00980400387f, 0.00979983248f, 0.00979532301f,
 0.00979047734f, 0.00978529546f, 0.00977977645f, 0.00977392308f, 0.00976773351f, 0.0097612096f, 0.00975435134f, 0.00974715874f,
 0.00973963272f, 0.00973177422f, 0.00972358324f, 0.00971505977f, 0.00970620569f, 0.00969702005f, 0.0096875038f, 0.00967765786f,
 0.00966748223f, 0.00965697877f, 0.00964614563f, 0.00963498652f, 0.00962349959f, 0.00961168576f, 0.0095995469f, 0.00958708301f,
 0.00957429409f, 0.009561182f, 0.00954774581f, 0.00953398738f, 0.00951990765f, 0.0095055066f, 0.00949078426f, 0.0094757434f,
 0.00946038309f, 0.00944470428f, 0.00942870788f, 0.00941239577f, 0.00939576607f, 0.00937882252f, 0.00936156418f, 0.00934399199f,
 0.00932610687f, 0.00930791069f, 0.00928940251f, 0.00927058421f, 0.00925145671f, 0.00923202001f, 0.00921227597f, 0.00919222552f,
 0.00917186867f, 0.00915120728f, 0.00913024135f, 0.0091089718f, 0.00908740051f, 0.0090655284f, 0.00904335547f, 0.00902088266f,
 0.00899811182f, 0.00897504389f, 0.00895167887f, 0.00892801862f, 0.00890406407f, 0.00887981616f, 0.00885527581f, 0.00883044396f,
 0.00880532246f, 0.00877991039f, 0.00875421148f, 0.00872822478f, 0.00870195217f, 0.00867539458f, 0.00864855293f, 0.00862142909f,
 0.008594024f, 0.00856633764f, 0.00853837281f, 0.00851012859f, 0.0084816087f, 0.00845281221f, 0.00842374098f, 0.00839439686f,
 0.00836477987f, 0.0083348928f, 0.00830473471f, 0.00827430841f, 0.00824361481f, 0.00821265578f, 0.0081814304f, 0.00814994238f,
 0.00811819173f, 0.00808617938f, 0.00805390812f, 0.00802137796f, 0.00798858982f, 0.00795554649f, 0.00792224891f, 0.00788869709f,
 0.0078548938f, 0.00782083906f, 0.00778653612f, 0.00775198452f, 0.00771718612f, 0.00768214278f, 0.0076468559f, 0.00761132594f,
 0.00757555524f, 0.00753954472f, 0.00750329578f, 0.00746681029f, 0.00743008917f, 0.00739313383f, 0.00735594565f, 0.00731852697f,
 0.00728087826f, 0.0072430009f, 0.00720489724f, 0.00716656819f, 0.00712801516f, 0.00708923955f, 0.00705024321f, 0.00701102754f,
 0.00697159395f, 0.00693194382f, 0.00689207902f, 0.00685200095f, 0.00681171054f, 0.00677121058f, 0.00673050154f, 0.00668958528f,
 0.0066484632f, 0.00660713715f, 0.00656560855f, 0.00652387924f, 0.00648195017f, 0.00643982366f, 0.0063975011f, 0.00635498343f,
 0.00631227298f, 0.0062693716f, 0.00622627977f, 0.00618300028f, 0.00613953406f, 0.00609588251f, 0.00605204841f, 0.00600803224f,
 0.00596383633f, 0.0059194616f, 0.00587491086f, 0.00583018456f, 0.00578528503f, 0.00574021414f, 0.00569497282f, 0.00564956339f,
 0.00560398726f, 0.00555824628f, 0.00551234186f, 0.00546627585f, 0.00542005012f, 0.00537366606f, 0.00532712555f, 0.00528043043f,
 0.00523358257f, 0.00518658292f, 0.00513943424f, 0.00509213749f, 0.00504469452f, 0.0049971072f, 0.00494937738f, 0.00490150694f,
 0.00485349726f, 0.00480535021f, 0.00475706719f, 0.00470865099f, 0.00466010254f, 0.0046114237f, 0.00456261635f, 0.00451368233f,
 0.00446462352f, 0.0044154413f, 0.00436613755f, 0.00431671459f, 0.00426717382f, 0.00421751663f, 0.00416774582f, 0.00411786232f,
 0.00406786799f, 0.00401776517f, 0.00396755524f, 0.00391724054f, 0.00386682199f, 0.00381630217f, 0.00376568246f, 0.00371496496f,
 0.0036641513f, 0.00361324358f, 0.00356224319f, 0.00351115246f, 0.0034599728f, 0.00340870628f, 0.00335735478f, 0.00330591993f,
 0.00325440359f, 0.00320280786f, 0.00315113412f, 0.00309938472f, 0.00304756127f, 0.00299566565f, 0.00294369971f, 0.00289166509f,
 0.00283956388f, 0.00278739794f, 0.00273516914f, 0.0026828791f, 0.00263052993f, 0.00257812347f, 0.00252566137f, 0.00247314549f,
 0.00242057792f, 0.00236796052f, 0.00231529493f, 0.002262583f, 0.00220982684f, 0.00215702807f, 0.00210418878f, 0.00205131061f,
 0.00199839566f, 0.00194544543f, 0.00189246214f, 0.00183944742f, 0.00178640324f, 0.00173333148f, 0.00168023387f, 0.00162711239f,
 0.00157396891f, 0.00152080518f, 0.00146762317f, 0.00141442462f, 0.00136121153f, 0.00130798563f, 0.0012547489f, 0.00120150298f,
 0.00114824995f, 0.00109499169f, 0.00104172982f, 0.000988466316f, 0.000935203047f, 0.000881941873f, 0.00082868454f, 0.000775433029f,
 0.000722189085f, 0.00066895457f, 0.000615731347f, 0.00056252128f, 0.000509326172f, 0.000456147856f, 0.000402988167f, 0.000349848968f,
 0.000296732032f, 0.000243639268f, 0.000190572449f, 0.000137533396f, 8.45239701e-05f, 3.15459583e-05f, -2.13988023e-05f, -7.43085038e-05f,
 -0.000127181323f, -0.000180015471f, -0.000232809107f, -0.00028556044f, -0.00033826768f, -0.000390929024f, -0.000443542638f, -0.000496106746f,
 -0.000548619602f, -0.000601079315f, -0.000653484196f, -0.000705832441f, -0.000758122245f, -0.000810351805f, -0.000862519373f, -0.000914623262f,
 -0.000966661552f, -0.00101863255f, -0.00107053458f, -0.00112236571f, -0.00117412442f, -0.00122580875f, -0.00127741694f, -0.00132894749f,
 -0.0013803984f, -0.00143176806f, -0.00148305472f, -0.00153425662f, -0.00158537214f, -0.00163639954f, -0.00168733695f, -0.00173818285f,
 -0.00178893539f, -0.00183959294f, -0.00189015386f, -0.00194061641f, -0.00199097884f, -0.00204123952f, -0.0020913966f, -0.0021414489f,
 -0.0021913941f, -0.00224123104f, -0.00229095784f, -0.00234057289f, -0.00239007454f, -0.00243946118f, -0.00248873094f, -0.00253788265f,
 -0.00258691423f, -0.00263582426f, -0.00268461113f, -0.0027332732f, -0.00278180884f, -0.00283021643f, -0.00287849433f, -0.00292664114f,
 -0.00297465501f, -0.00302253454f, -0.00307027809f, -0.00311788428f, -0.00316535123f, -0.00321267778f, -0.00325986184f, -0.00330690225f,
 -0.00335379736f, -0.0034005458f, -0.00344714569f, -0.00349359587f, -0.00353989471f, -0.00358604058f, -0.00363203208f, -0.00367786759f,
 -0.00372354593f, -0.00376906525f, -0.00381442439f, -0.00385962147f, -0.00390465558f, -0.00394952483f, -0.00399422785f, -0.00403876323f,
 -0.00408312958f, -0.00412732549f, -0.00417134957f, -0.00421519997f, -0.0042588762f, -0.00430237595f, -0.00434569782f, -0.00438884133f,
 -0.00443180418f, -0.00447458588f, -0.0045171841f, -0.00455959793f, -0.00460182596f, -0.00464386679f, -0.0046857195f, -0.00472738221f,
 -0.00476885401f, -0.00481013348f, -0.00485121878f, -0.00489210943f, -0.00493280357f, -0.00497330027f, -0.00501359813f, -0.00505369576f,
 -0.00509359175f, -0.00513328565f, -0.00517277513f, -0.00521205971f, -0.00525113801f, -0.00529000815f, -0.00532867014f, -0.00536712166f,
 -0.00540536223f, -0.00544339046f, -0.00548120495f, -0.00551880477f, -0.00555618852f, -0.00559335528f, -0.00563030364f, -0.00566703314f,
 -0.00570354145f, -0.00573982857f, -0.00577589311f, -0.00581173319f, -0.00584734883f, -0.00588273816f, -0.00591790071f, -0.00595283462f,
 -0.00598753942f, -0.00602201419f, -0.00605625706f, -0.00609026803f, -0.00612404523f, -0.00615758821f, -0.00619089557f, -0.00622396683f,
 -0.00625680014f, -0.0062893955f, -0.00632175105f, -0.00635386631f, -0.00638574036f, -0.0064173718f, -0.00644876016f, -0.00647990452f,
 -0.00651080394f, -0.00654145703f, -0.00657186331f, -0.0066020214f, -0.00663193129f, -0.00666159159f, -0.00669100136f, -0.00672016013f,
 -0.00674906652f, -0.00677771959f, -0.00680611935f, -0.00683426438f, -0.00686215376f, -0.00688978704f, -0.00691716373f, -0.00694428198f,
 -0.00697114179f, -0.00699774222f, -0.00702408282f, -0.00705016265f, -0.00707598031f, -0.00710153626f, -0.00712682912f, -0.00715185795f,
 -0.00717662228f, -0.00720112165f, -0.0072253556f, -0.00724932272f, -0.00727302255f, -0.00729645509f, -0.00731961895f, -0.00734251365f,
 -0.00736513874f, -0.00738749374f, -0.00740957772f, -0.0074313907f, -0.00745293126f, -0.00747419894f, -0.00749519374f, -0.0075159152f,
 -0.00753636193f, -0.00755653391f, -0.00757643068f, -0.00759605179f, -0.00761539629f, -0.00763446419f, -0.00765325455f, -0.00767176738f,
 -0.00769000174f, -0.00770795764f, -0.00772563461f, -0.00774303172f, -0.00776014896f, -0.00777698588f, -0.007793542f, -0.00780981686f,
 -0.00782581046f, -0.00784152187f, -0.0078569511f, -0.00787209719f, -0.0078869611f, -0.00790154096f, -0.00791583769f, -0.00792985037f,
 -0.00794357806f, -0.00795702264f, -0.00797018129f, -0.00798305497f, -0.00799564365f, -0.00800794642f, -0.00801996421f, -0.00803169515f,
 -0.00804314017f, -0.00805429835f, -0.00806516968f, -0.00807575416f, -0.00808605179f, -0.00809606258f, -0.00810578559f, -0.00811522081f,
 -0.00812436827f, -0.00813322887f, -0.00814180076f, -0.00815008488f, -0.00815808028f, -0.00816578791f, -0.00817320775f, -0.00818033796f,
 -0.00818718038f, -0.00819373503f, -0.00820000004f, -0.00820597727f, -0.00821166486f, -0.00821706466f, -0.00822217576f, -0.00822699815f,
 -0.00823153276f, -0.00823577773f, -0.00823973492f, -0.0082434034f, -0.0082467841f, -0.00824987609f, -0.00825267937f, -0.00825519487f,
 -0.0082574226f, -0.00825936254f, -0.00826101378f, -0.00826237816f, -0.00826345477f, -0.00826424453f, -0.00826474652f, -0.00826496165f,
 -0.00826488994f, -0.00826453138f, -0.00826388597f, -0.00826295558f, -0.00826173835f, -0.00826023519f, -0.00825844612f, -0.00825637206f,
 -0.00825401396f, -0.00825136993f, -0.00824844185f, -0.00824522879f, -0.0082417326f, -0.00823795237f, -0.00823388901f, -0.00822954345f,
 -0.00822491385f, -0.00822000299f, -0.00821480993f, -0.00820933562f, -0.00820357911f, -0.00819754228f, -0.00819122512f, -0.00818462856f,
 -0.00817775168f, -0.00817059539f, -0.00816316064f, -0.00815544836f, -0.00814745668f, -0.0081391884f, -0.00813064352f, -0.00812182203f,
 -0.00811272487f, -0.00810335111f, -0.00809370354f, -0.00808378123f, -0.00807358418f, -0.00806311518f, -0.00805237237f, -0.00804135762f,
 -0.00803007092f, -0.00801851228f, -0.00800668448f, -0.00799458567f, -0.00798221771f, -0.00796958152f, -0.00795667712f, -0.00794350449f,
 -0.00793006551f, -0.00791636016f, -0.00790238846f, -0.00788815226f, -0.0078736525f, -0.00785888825f, -0.00784386136f, -0.00782857183f,
 -0.00781302154f, -0.00779720955f, -0.00778113818f, -0.00776480697f, -0.00774821732f, -0.0077313697f, -0.00771426503f, -0.00769690378f,
 -0.00767928688f, -0.00766141526f, -0.00764328986f, -0.00762491114f, -0.00760627957f, -0.00758739654f, -0.00756826298f, -0.00754887937f,
 -0.00752924662f, -0.00750936521f, -0.007489237f, -0.00746886153f, -0.00744824065f, -0.00742737483f, -0.00740626547f, -0.00738491258f,
 -0.007363318f, -0.00734148175f, -0.00731940521f, -0.00729708932f, -0.00727453502f, -0.00725174323f, -0.00722871488f, -0.00720545091f,
 -0.00718195178f, -0.00715821935f, -0.00713425456f, -0.0071100574f, -0.00708562974f, -0.00706097251f, -0.00703608617f, -0.00701097259f,
 -0.00698563177f, -0.00696006557f, -0.00693427492f, -0.00690826029f, -0.00688202353f, -0.00685556512f, -0.00682888599f, -0.006801988f,
 -0.00677487161f, -0.00674753776f, -0.00671998784f, -0.00669222325f, -0.00666424446f, -0.00663605332f, -0.00660764985f, -0.00657903636f,
 -0.00655021332f, -0.00652118213f, -0.00649194373f, -0.0064624995f, -0.00643284991f, -0.0064029973f, -0.00637294212f, -0.00634268532f,
 -0.00631222874f, -0.00628157286f, -0.00625071954f, -0.00621966971f, -0.00618842477f, -0.00615698518f, -0.00612535328f, -0.00609352905f,
 -0.00606151484f, -0.00602931157f, -0.00599692017f, -0.00596434204f, -0.00593157811f, -0.00589863071f, -0.00586549984f, -0.00583218737f,
 -0.00579869468f, -0.00576502271f, -0.00573117333f, -0.00569714699f, -0.00566294556f, -0.00562857045f, -0.00559402257f, -0.00555930333f,
 -0.00552441413f, -0.00548935635f, -0.0054541314f, -0.00541874021f, -0.00538318465f, -0.00534746516f, -0.00531158457f, -0.00527554285f,
 -0.00523934187f, -0.00520298304f, -0.00516646774f, -0.00512979738f, -0.00509297289f, -0.00505599659f, -0.00501886895f, -0.00498159137f,
 -0.00494416617f, -0.00490659382f, -0.00486887572f, -0.0048310142f, -0.00479300972f, -0.00475486415f, -0.00471657887f, -0.0046781553f,
 -0.00463959435f, -0.00460089836f, -0.0045620678f, -0.00452310499f, -0.00448401086f, -0.00444478728f, -0.00440543471f, -0.00436595595f,
 -0.00432635145f, -0.00428662309f, -0.00424677227f, -0.00420680037f, -0.00416670926f, -0.00412649941f, -0.00408617361f, -0.00404573232f,
 -0.00400517741f, -0.00396451028f, -0.00392373279f, -0.00388284586f, -0.00384185114f, -0.00380075048f, -0.00375954481f, -0.00371823623f,
 -0.00367682567f, -0.00363531522f, -0.00359370583f, -0.00355199934f, -0.00351019716f, -0.00346830091f, -0.003426312f, -0.00338423206f,
 -0.00334206247f, -0.00329980464f, -0.00325746043f, -0.003215031f, -0.00317251822f, -0.00312992372f, -0.00308724842f, -0.00304449443f,
 -0.0030016629f, -0.00295875571f, -0.00291577424f, -0.00287272013f, -0.00282959477f, -0.00278639956f, -0.00274313637f, -0.00269980682f,
 -0.00265641208f, -0.00261295377f, -0.00256943377f, -0.00252585323f, -0.00248221401f, -0.00243851752f, -0.00239476538f, -0.00235095923f,
 -0.00230710022f, -0.00226319046f, -0.0022192311f, -0.00217522378f, -0.00213117013f, -0.00208707177f, -0.00204293034f, -0.001998747f,
 -0.00195452361f, -0.00191026181f, -0.00186596299f, -0.00182162866f, -0.00177726056f, -0.00173286023f, -0.00168842904f, -0.00164396875f,
 -0.00159948098f, -0.00155496702f, -0.00151042861f, -0.00146586739f, -0.00142128475f, -0.00137668243f, -0.00133206183f, -0.00128742447f,
 -0.00124277209f, -0.00119810621f, -0.00115342834f, -0.00110874011f, -0.00106404291f, -0.0010193385f, -0.000974628259f, -0.000929913891f,
 -0.000885196845f, -0.000840478751f, -0.000795761182f, -0.000751045591f, -0.000706333551f, -0.000661626691f, -0.000616926525f, -0.000572234509f,
 -0.000527552329f, -0.000482881471f, -0.000438223477f, -0.00039357986f, -0.000348952221f, -0.000304342044f, -0.000259750901f, -0.000215180291f,
 -0.0001706318f, -0.000126106926f, -8.16072061e-05f, -3.71341703e-05f, 7.31065393e-06f, 5.17257431e-05f, 9.6109572e-05f, 0.00014046063f,
 0.000184777382f, 0.000229058336f, 0.000273301936f, 0.000317506725f, 0.000361671147f, 0.000405793748f, 0.000449872954f, 0.000493907311f,
 0.000537895306f, 0.000581835455f, 0.000625726243f, 0.000669566216f, 0.000713353802f, 0.000757087604f, 0.000800766109f, 0.000844387861f,
 0.00088795129f, 0.000931455055f, 0.000974897586f, 0.00101827749f, 0.00106159318f, 0.00110484334f, 0.00114802644f, 0.00119114097f,
 0.00123418553f, 0.00127715874f, 0.00132005906f, 0.00136288512f, 0.0014056355f, 0.00144830858f, 0.0014909032f, 0.00153341773f,
 0.00157585077f, 0.00161820091f, 0.00166046689f, 0.00170264707f, 0.00174474018f, 0.0017867448f, 0.00182865956f, 0.00187048293f,
 0.00191221363f, 0.00195385027f, 0.00199539145f, 0.00203683577f, 0.00207818183f, 0.00211942848f, 0.00216057384f, 0.00220161723f,
 0.00224255677f, 0.00228339131f, 0.00232411944f, 0.00236473978f, 0.00240525114f, 0.00244565215f, 0.0024859414f, 0.00252611772f,
 0.00256617949f, 0.00260612578f, 0.00264595496f, 0.00268566562f, 0.00272525707f, 0.00276472745f, 0.0028040756f, 0.00284330035f,
 0.00288240029f, 0.00292137428f, 0.00296022091f, 0.00299893902f, 0.0030375272f, 0.00307598454f, 0.00311430939f, 0.00315250061f,
 0.00319055724f, 0.00322847767f, 0.00326626096f, 0.00330390572f, 0.00334141077f, 0.00337877497f, 0.00341599691f, 0.00345307565f,
 0.00349001004f, 0.00352679845f, 0.00356344017f, 0.00359993381f, 0.00363627821f, 0.00367247243f, 0.00370851485f, 0.00374440476f,
 0.00378014077f, 0.00381572195f, 0.0038511469f, 0.00388641469f, 0.00392152416f, 0.00395647436f, 0.00399126345f, 0.00402589142f,
 0.00406035641f, 0.00409465749f, 0.00412879372f, 0.00416276371f, 0.004196567f, 0.00423020218f, 0.00426366786f, 0.00429696357f,
 0.00433008792f, 0.00436303951f, 0.00439581834f, 0.00442842254f, 0.0044608512f, 0.00449310383f, 0.00452517904f, 0.00455707544f,
 0.00458879303f, 0.00462032994f, 0.00465168525f, 0.00468285847f, 0.0047138487f, 0.00474465452f, 0.00477527501f, 0.00480570924f,
 0.00483595673f, 0.00486601656f, 0.00489588687f, 0.00492556766f, 0.00495505752f, 0.004984356f, 0.00501346216f, 0.0050423746f,
 0.00507109333f, 0.00509961648f, 0.00512794359f, 0.00515607418f, 0.00518400688f, 0.0052117412f, 0.00523927575f, 0.00526661053f,
 0.00529374462f, 0.00532067614f, 0.00534740556f, 0.00537393149f, 0.00540025346f, 0.00542637054f, 0.00545228133f, 0.0054779863f,
 0.00550348358f, 0.00552877318f, 0.0055538537f, 0.00557872513f, 0.00560338609f, 0.0056278361f, 0.0056520747f, 0.00567610096f,
 0.00569991441f, 0.00572351413f, 0.00574689917f, 0.00577006955f, 0.00579302385f, 0.0058157621f, 0.00583828334f, 0.00586058712f,
 0.00588267203f, 0.00590453856f, 0.00592618575f, 0.00594761269f, 0.00596881891f, 0.00598980347f, 0.00601056684f, 0.00603110716f,
 0.00605142489f, 0.00607151911f, 0.00609138887f, 0.00611103419f, 0.0061304546f, 0.00614964869f, 0.00616861694f, 0.00618735887f,
 0.0062058731f, 0.00622415962f, 0.00624221796f, 0.00626004767f, 0.00627764827f, 0.0062950193f, 0.00631216029f, 0.00632907078f,
 0.0063457503f, 0.00636219839f, 0.00637841504f, 0.00639439933f, 0.00641015079f, 0.00642566988f, 0.00644095521f, 0.00645600678f,
 0.00647082459f, 0.00648540771f, 0.00649975613f, 0.00651386939f, 0.00652774703f, 0.00654138904f, 0.00655479496f, 0.00656796433f,
 0.00658089714f, 0.00659359293f, 0.0066060517f, 0.00661827251f, 0.00663025538f, 0.00664200075f, 0.00665350724f, 0.00666477531f,
 0.00667580497f, 0.00668659527f, 0.00669714622f, 0.00670745783f, 0.00671752961f, 0.00672736205f, 0.00673695421f, 0.00674630608f,
 0.00675541768f, 0.00676428899f, 0.00677291909f, 0.00678130891f, 0.00678945752f, 0.00679736538f, 0.00680503203f, 0.00681245746f,
 0.00681964122f, 0.00682658376f, 0.00683328463f, 0.00683974428f, 0.00684596179f, 0.00685193762f, 0.00685767224f, 0.00686316472f,
 0.00686841505f, 0.00687342416f, 0.00687819114f, 0.00688271597f, 0.00688699959f, 0.0068910406f, 0.00689484039f, 0.00689839805f,
 0.00690171449f, 0.00690478878f, 0.0069076214f, 0.00691021234f, 0.00691256206f, 0.00691467058f, 0.00691653742f, 0.00691816304f,
 0.00691954745f, 0.00692069065f, 0.00692159357f, 0.00692225527f, 0.00692267623f, 0.0069228569f, 0.0069227973f, 0.00692249741f,
 0.00692195771f, 0.0069211782f, 0.00692015886f, 0.00691890018f, 0.00691740215f, 0.00691566523f, 0.00691368943f, 0.00691147521f,
 0.00690902257f, 0.00690633198f, 0.00690340344f, 0.00690023741f, 0.00689683389f, 0.00689319335f, 0.00688931625f, 0.0068852026f,
 0.00688085286f, 0.00687626749f, 0.00687144604f, 0.00686638989f, 0.00686109904f, 0.00685557304f, 0.00684981328f, 0.00684381975f,
 0.00683759293f, 0.00683113281f, 0.00682443986f, 0.00681751501f, 0.00681035779f, 0.00680296961f, 0.00679535f, 0.00678749941f,
 0.00677941926f, 0.00677110907f, 0.0067625693f, 0.0067538009f, 0.00674480386f, 0.00673557865f, 0.00672612619f, 0.00671644695f,
 0.00670654094f, 0.00669640861f, 0.00668605138f, 0.00667546876f, 0.00666466169f, 0.00665363017f, 0.00664237607f, 0.00663089845f,
 0.00661919871f, 0.00660727685f, 0.00659513427f, 0.0065827705f, 0.00657018693f, 0.00655738404f, 0.00654436182f, 0.00653112167f,
 0.0065176636f, 0.00650398852f, 0.00649009692f, 0.00647598924f, 0.0064616669f, 0.00644712942f, 0.0064323782f, 0.00641741417f,
 0.00640223688f, 0.00638684817f, 0.00637124805f, 0.00635543745f, 0.00633941684f, 0.00632318715f, 0.00630674884f, 0.00629010284f,
 0.00627324963f, 0.00625619059f, 0.00623892527f, 0.00622145552f, 0.00620378181f, 0.00618590461f, 0.00616782485f, 0.00614954298f,
 0.00613106042f, 0.00611237762f, 0.00609349506f, 0.00607441366f, 0.00605513481f, 0.00603565853f, 0.0060159862f, 0.0059961183f,
 0.00597605575f, 0.00595579902f, 0.0059353495f, 0.00591470813f, 0.00589387538f, 0.0058728517f, 0.00585163897f, 0.00583023718f,
 0.00580864772f, 0.00578687107f, 0.00576490862f, 0.00574276084f, 0.00572042866f, 0.005697913f, 0.00567521481f, 0.00565233501f,
 0.00562927453f, 0.0056060343f, 0.00558261573f, 0.00555901881f, 0.00553524494f, 0.00551129505f, 0.00548717007f, 0.00546287093f,
 0.00543839857f, 0.00541375438f, 0.00538893882f, 0.00536395283f, 0.00533879781f, 0.00531347468f, 0.00528798392f, 0.00526232738f,
 0.00523650507f, 0.00521051884f, 0.00518436916f, 0.00515805744f, 0.00513158413f, 0.00510495109f, 0.00507815881f, 0.00505120819f,
 0.00502410065f, 0.00499683712f, 0.00496941898f, 0.00494184624f, 0.00491412124f, 0.00488624442f, 0.00485821674f, 0.00483003911f,
 0.0048017134f, 0.00477324007f, 0.00474462053f, 0.00471585523f, 0.00468694605f, 0.00465789391f, 0.00462869974f, 0.00459936447f,
 0.00456988998f, 0.00454027625f, 0.00451052561f, 0.00448063808f, 0.0044506155f, 0.0044204588f, 0.00439016894f, 0.00435974728f,
 0.00432919525f, 0.00429851329f, 0.00426770328f, 0.00423676567f, 0.00420570234f, 0.00417451374f, 0.00414320175f, 0.00411176682f,
 0.00408021081f, 0.00404853467f, 0.00401673932f, 0.00398482615f, 0.00395279611f, 0.00392065104f, 0.00388839119f, 0.00385601842f,
 0.00382353389f, 0.00379093876f, 0.00375823397f, 0.00372542092f, 0.00369250099f, 0.00365947513f, 0.00362634473f, 0.00359311095f,
 0.00355977495f, 0.00352633814f, 0.00349280145f, 0.00345916627f, 0.003425434f, 0.00339160557f, 0.00335768261f, 0.00332366605f,
 0.00328955706f, 0.00325535727f, 0.0032210676f, 0.00318668922f, 0.00315222377f, 0.0031176724f, 0.00308303605f, 0.00304831634f,
 0.00301351445f, 0.00297863153f, 0.00294366898f, 0.00290862797f, 0.00287350966f, 0.00283831568f, 0.00280304695f, 0.00276770489f,
 0.00273229065f, 0.00269680587f, 0.00266125146f, 0.00262562884f, 0.00258993916f, 0.00255418406f, 0.00251836446f, 0.00248248177f,
 0.00244653737f, 0.00241053244f, 0.00237446837f, 0.00233834633f, 0.0023021677f, 0.00226593367f, 0.00222964562f, 0.00219330494f,
 0.00215691258f, 0.0021204704f, 0.00208397931f, 0.0020474405f, 0.00201085559f, 0.00197422574f, 0.00193755236f, 0.00190083659f,
 0.00186407974f, 0.0018272833f, 0.00179044832f, 0.00175357633f, 0.00171666848f, 0.00167972629f, 0.00164275081f, 0.00160574343f,
 0.00156870543f, 0.00153163832f, 0.00149454316f, 0.00145742134f, 0.00142027414f, 0.00138310308f, 0.0013459092f, 0.0013086939f,
 0.00127145846f, 0.00123420428f, 0.00119693251f, 0.00115964457f, 0.00112234184f, 0.00108502549f, 0.00104769692f, 0.00101035729f,
 0.000973008049f, 0.000935650431f, 0.000898285769f, 0.000860915345f, 0.000823540497f, 0.000786162447f, 0.000748782593f, 0.000711402216f,
 0.000674022536f, 0.000636644952f, 0.000599270687f, 0.000561901077f, 0.000524537405f, 0.000487180951f, 0.000449833024f, 0.000412494934f,
 0.000375167932f, 0.000337853329f, 0.000300552405f, 0.000263266469f, 0.000225996759f, 0.000188744598f, 0.000151511267f, 0.000114298025f,
 7.71061677e-05f, 3.99369674e-05f, 2.79170035e-06f, -3.43283609e-05f, -7.14219423e-05f, -0.000108487773f, -0.00014552458f, -0.000182531105f,
 -0.000219506081f, -0.000256448257f, -0.000293356337f, -0.000330229086f, -0.000367065251f, -0.000403863582f, -0.000440622796f, -0.000477341673f,
 -0.000514018931f, -0.000550653378f, -0.000587243761f, -0.000623788743f, -0.000660287216f, -0.000696737901f, -0.000733139517f, -0.0007694909f,
 -0.000805790769f, -0.000842037902f, -0.000878231076f, -0.000914369128f, -0.000950450776f, -0.000986474799f, -0.00102244015f, -0.00105834531f,
 -0.00109418936f, -0.00112997089f, -0.00116568885f, -0.00120134198f, -0.00123692909f, -0.00127244904f, -0.00130790053f, -0.00134328241f,
 -0.00137859362f, -0.00141383277f, -0.00144899881f, -0.0014840907f, -0.00151910703f, -0.00155404664f, -0.00158890861f, -0.00162369164f,
 -0.00165839447f, -0.00169301615f, -0.0017275553f, -0.00176201097f, -0.00179638201f, -0.00183066726f, -0.00186486554f, -0.00189897569f,
 -0.00193299667f, -0.0019669272f, -0.00200076657f, -0.00203451305f, -0.00206816616f, -0.00210172427f, -0.00213518669f, -0.00216855202f,
 -0.00220181933f, -0.00223498745f, -0.00226805545f, -0.00230102218f, -0.00233388646f, -0.00236664712f, -0.00239930348f, -0.00243185414f,
 -0.00246429816f, -0.00249663438f, -0.00252886186f, -0.00256097969f, -0.00259298668f, -0.00262488169f, -0.00265666377f, -0.002688332f,
 -0.0027198852f, -0.00275132246f, -0.00278264284f, -0.00281384517f, -0.00284492853f, -0.00287589175f, -0.00290673412f, -0.00293745426f,
 -0.0029680517f, -0.00299852504f, -0.00302887359f, -0.00305909617f, -0.00308919209f, -0.00311915996f, -0.0031489993f, -0.00317870872f,
 -0.00320828753f, -0.00323773478f, -0.00326704956f, -0.00329623092f, -0.00332527771f, -0.00335418945f, -0.00338296476f, -0.00341160316f,
 -0.00344010326f, -0.00346846483f, -0.00349668623f, -0.00352476723f, -0.00355270645f, -0.0035805034f, -0.00360815716f, -0.00363566657f,
 -0.00366303092f, -0.00369024952f, -0.00371732144f, -0.00374424551f, -0.0037710215f, -0.00379764824f, -0.00382412481f, -0.00385045051f,
 -0.00387662463f, -0.00390264625f, -0.00392851466f, -0.00395422895f, -0.00397978816f, -0.00400519185f, -0.00403043907f, -0.00405552937f,
 -0.00408046134f, -0.00410523498f, -0.00412984891f, -0.00415430265f, -0.00417859573f, -0.00420272676f, -0.00422669575f, -0.00425050128f,
 -0.00427414291f, -0.00429762015f, -0.00432093255f, -0.00434407825f, -0.0043670577f, -0.00438986998f, -0.00441251416f, -0.0044349893f,
 -0.00445729541f, -0.00447943155f, -0.00450139679f, -0.00452319114f, -0.00454481319f, -0.00456626248f, -0.00458753901f, -0.00460864184f,
 -0.00462956959f, -0.00465032272f, -0.00467090029f, -0.00469130138f, -0.00471152598f, -0.00473157316f, -0.004751442f, -0.00477113249f,
 -0.0047906437f, -0.00480997562f, -0.00482912688f, -0.00484809792f, -0.00486688735f, -0.00488549471f, -0.00490391999f, -0.00492216274f,
 -0.00494022155f, -0.00495809689f, -0.00497578783f, -0.00499329343f, -0.00501061417f, -0.00502774911f, -0.00504469778f, -0.00506145973f,
 -0.00507803448f, -0.00509442156f, -0.00511062052f, -0.00512663089f, -0.00514245266f, -0.00515808491f, -0.00517352717f, -0.00518877944f,
 -0.00520384125f, -0.00521871168f, -0.00523339119f, -0.00524787884f, -0.00526217464f, -0.00527627766f, -0.0052901879f, -0.00530390488f,
 -0.00531742861f, -0.00533075817f, -0.00534389401f, -0.00535683474f, -0.00536958128f, -0.00538213225f, -0.00539448811f, -0.00540664792f,
 -0.00541861169f, -0.00543037942f, -0.00544195063f, -0.00545332488f, -0.00546450214f, -0.00547548197f, -0.00548626389f, -0.00549684837f,
 -0.00550723448f, -0.00551742269f, -0.00552741205f, -0.00553720305f, -0.00554679474f, -0.00555618759f, -0.00556538114f, -0.00557437539f,
 -0.0055831694f, -0.00559176411f, -0.00560015859f, -0.00560835283f, -0.00561634684f, -0.00562414061f, -0.00563173369f, -0.00563912606f,
 -0.00564631773f, -0.00565330824f, -0.00566009805f, -0.00566668669f, -0.0056730737f, -0.00567926001f, -0.00568524469f, -0.00569102773f,
 -0.00569660962f, -0.0057019894f, -0.00570716802f, -0.00571214501f, -0.00571692036f, -0.00572149362f, -0.00572586572f, -0.00573003571f,
 -0.00573400361f, -0.00573777035f, -0.00574133499f, -0.00574469846f, -0.00574785983f, -0.00575081958f, -0.00575357769f, -0.00575613417f,
 -0.00575848902f, -0.00576064223f, -0.00576259429f, -0.00576434517f, -0.00576589489f, -0.00576724298f, -0.00576838991f, -0.00576933613f,
 -0.00577008165f, -0.00577062601f, -0.00577097014f, -0.00577111309f, -0.00577105628f, -0.00577079877f, -0.00577034149f, -0.00576968398f,
 -0.0057688267f, -0.00576777011f, -0.00576651376f, -0.00576505857f, -0.00576340361f, -0.00576155027f, -0.0057594981f, -0.00575724756f,
 -0.00575479865f, -0.00575215183f, -0.00574930711f, -0.00574626448f, -0.00574302487f, -0.00573958829f, -0.00573595474f, -0.00573212467f,
 -0.0057280981f, -0.00572387548f, -0.00571945729f, -0.00571484398f, -0.0057100351f, -0.00570503157f, -0.00569983339f, -0.00569444103f,
 -0.00568885449f, -0.00568307471f, -0.00567710167f, -0.00567093538f, -0.00566457678f, -0.00565802585f, -0.00565128354f, -0.00564434938f,
 -0.0056372243f, -0.00562990829f, -0.00562240183f, -0.00561470585f, -0.00560681988f, -0.00559874484f, -0.00559048122f, -0.00558202947f,
 -0.00557338959f, -0.00556456251f, -0.00555554824f, -0.00554634724f, -0.00553696044f, -0.00552738784f, -0.00551762991f, -0.00550768711f,
 -0.00549756037f, -0.0054872497f, -0.00547675556f, -0.00546607887f, -0.00545521965f, -0.00544417882f, -0.00543295639f, -0.00542155374f,
 -0.00540997041f, -0.00539820734f, -0.00538626499f, -0.0053741443f, -0.00536184525f, -0.00534936832f, -0.00533671491f, -0.00532388501f,
 -0.00531087909f, -0.00529769761f, -0.00528434152f, -0.00527081173f, -0.00525710778f, -0.00524323108f, -0.00522918208f, -0.00521496171f,
 -0.00520056952f, -0.00518600736f, -0.00517127523f, -0.00515637361f, -0.00514130341f, -0.00512606511f, -0.00511065964f, -0.00509508746f,
 -0.00507934904f, -0.00506344577f, -0.0050473772f, -0.00503114518f, -0.00501474924f, -0.00499819079f, -0.00498147076f, -0.00496458914f,
 -0.00494754687f, -0.00493034441f, -0.00491298316f, -0.00489546359f, -0.00487778615f, -0.00485995132f, -0.00484196097f, -0.00482381415f,
 -0.00480551319f, -0.0047870581f, -0.00476844935f, -0.00474968832f, -0.00473077502f, -0.00471171085f, -0.00469249673f, -0.00467313267f,
 -0.00465362007f, -0.00463395985f, -0.00461415201f, -0.00459419796f, -0.00457409816f, -0.00455385353f, -0.00453346502f, -0.00451293355f,
 -0.00449225958f, -0.00447144406f, -0.00445048744f, -0.00442939159f, -0.00440815603f, -0.00438678265f, -0.00436527189f, -0.00434362423f,
 -0.00432184106f, -0.00429992331f, -0.00427787146f, -0.00425568596f, -0.00423336867f, -0.00421092007f, -0.00418834062f, -0.00416563172f,
 -0.00414279383f, -0.00411982834f, -0.00409673527f, -0.00407351647f, -0.0040501724f, -0.004026704f, -0.0040031122f, -0.00397939794f,
 -0.00395556213f, -0.00393160572f, -0.00390752917f, -0.00388333388f, -0.00385902077f, -0.00383459055f, -0.00381004415f, -0.00378538272f,
 -0.00376060698f, -0.00373571808f, -0.00371071696f, -0.00368560432f, -0.00366038107f, -0.00363504863f, -0.00360960746f, -0.00358405896f,
 -0.00355840381f, -0.00353264296f, -0.00350677734f, -0.00348080811f, -0.0034547362f, -0.00342856254f, -0.0034022883f, -0.00337591395f,
 -0.0033494411f, -0.00332287024f, -0.00329620275f, -0.00326943933f, -0.00324258115f, -0.00321562891f, -0.00318858423f, -0.00316144759f,
 -0.00313422014f, -0.00310690282f, -0.00307949679f, -0.00305200298f, -0.00302442233f, -0.002996756f, -0.00296900491f, -0.00294117024f,
 -0.00291325292f, -0.00288525387f, -0.00285717426f, -0.00282901502f, -0.00280077732f, -0.00277246209f, -0.00274407025f, -0.00271560322f,
 -0.00268706167f, -0.00265844679f, -0.00262975972f, -0.00260100118f, -0.00257217255f, -0.00254327501f, -0.00251430902f, -0.0024852762f,
 -0.00245617726f, -0.00242701336f, -0.00239778589f, -0.00236849533f, -0.00233914307f, -0.00230973004f, -0.00228025764f, -0.00225072657f,
 -0.00222113798f, -0.00219149282f, -0.00216179248f, -0.00213203789f, -0.00210222998f, -0.00207237015f, -0.00204245909f, -0.00201249798f,
 -0.00198248797f, -0.00195243023f, -0.00192232581f, -0.00189217553f, -0.00186198077f, -0.00183174247f, -0.00180146168f, -0.00177113956f,
 -0.00174077728f, -0.00171037565f, -0.00167993607f, -0.00164945936f, -0.00161894679f, -0.00158839929f, -0.00155781803f, -0.00152720418f,
 -0.00149655866f, -0.00146588264f, -0.00143517728f, -0.00140444352f, -0.00137368264f, -0.00134289544f, -0.00131208333f, -0.00128124713f,
 -0.0012503881f, -0.00121950719f, -0.00118860567f, -0.00115768448f, -0.00112674478f, -0.00109578762f, -0.00106481416f, -0.00103382533f,
 -0.00100282242f, -0.000971806352f, -0.000940778293f, -0.00090973929f, -0.000878690451f, -0.00084763288f, -0.000816567685f, -0.000785495853f,
 -0.00075441855f, -0.000723336823f, -0.000692251837f, -0.000661164522f, -0.000630076102f, -0.000598987564f, -0.000567900017f, -0.000536814565f,
 -0.000505732314f, -0.000474654225f, -0.000443581492f, -0.000412515132f, -0.000381456251f, -0.000350405899f, -0.00031936515f, -0.000288335083f,
 -0.000257316773f, -0.000226311298f, -0.000195319721f, -0.000164343088f, -0.000133382477f, -0.000102438971f, -7.15136048e-05f, -4.06074614e-05f,
 -9.7215916e-06f, 2.11429433e-05f, 5.19850837e-05f, 8.2803781e-05f, 0.000113597969f, 0.000144366597f, 0.000175108624f, 0.000205822987f,
 0.000236508655f, 0.000267164578f, 0.000297789695f, 0.000328382972f, 0.000358943362f, 0.000389469846f, 0.000419961347f, 0.000450416876f,
 0.000480835384f, 0.000511215825f, 0.000541557209f, 0.000571858487f, 0.000602118613f, 0.000632336538f, 0.000662511331f, 0.000692641945f,
 0.000722727273f, 0.000752766442f, 0.000782758347f, 0.000812701997f, 0.000842596404f, 0.000872440578f, 0.000902233412f, 0.000931974035f,
 0.000961661397f, 0.00099129451f, 0.00102087238f, 0.00105039403f, 0.00107985851f, 0.00110926467f, 0.0011386117f, 0.00116789853f,
 0.00119712437f, 0.00122628792f, 0.00125538849f, 0.00128442503f, 0.0013133965f, 0.00134230196f, 0.00137114059f, 0.00139991124f,
 0.00142861309f, 0.00145724521f, 0.00148580654f, 0.00151429616f, 0.00154271326f, 0.00157105678f, 0.0015993258f, 0.00162751938f,
 0.00165563659f, 0.00168367662f, 0.00171163841f, 0.00173952105f, 0.00176732382f, 0.00179504557f, 0.00182268547f, 0.00185024261f,
 0.00187771616f, 0.00190510519f, 0.00193240889f, 0.0019596261f, 0.00198675622f, 0.00201379834f, 0.00204075128f, 0.00206761458f,
 0.00209438708f, 0.00212106807f, 0.00214765663f, 0.00217415183f, 0.00220055296f, 0.0022268591f, 0.00225306931f, 0.0022791829f,
 0.00230519893f, 0.0023311167f, 0.00235693506f, 0.00238265353f, 0.00240827119f, 0.0024337871f, 0.00245920056f, 0.00248451089f,
 0.0025097169f, 0.00253481814f, 0.00255981367f, 0.0025847028f, 0.0026094846f, 0.00263415813f, 0.00265872292f, 0.00268317829f,
 0.00270752306f, 0.00273175654f, 0.00275587826f, 0.00277988729f, 0.00280378293f, 0.00282756425f, 0.00285123079f, 0.00287478161f,
 0.00289821601f, 0.00292153307f, 0.00294473232f, 0.00296781305f, 0.00299077458f, 0.00301361596f, 0.00303633651f, 0.00305893575f,
 0.00308141275f, 0.00310376682f, 0.00312599749f, 0.00314810406f, 0.00317008561f, 0.00319194142f, 0.00321367127f, 0.00323527399f,
 0.00325674913f, 0.00327809621f, 0.0032993143f, 0.00332040293f, 0.00334136141f, 0.00336218905f, 0.00338288513f, 0.0034034492f,
 0.00342388079f, 0.00344417896f, 0.00346434303f, 0.00348437275f, 0.00350426743f, 0.00352402637f, 0.00354364887f, 0.00356313447f,
 0.00358248269f, 0.00360169285f, 0.00362076447f, 0.00363969686f, 0.00365848932f, 0.00367714162f, 0.00369565329f, 0.00371402339f,
 0.00373225147f, 0.00375033705f, 0.00376827992f, 0.00378607912f, 0.0038037342f, 0.00382124493f, 0.00383861037f, 0.00385583052f,
 0.00387290446f, 0.00388983195f, 0.00390661228f, 0.00392324524f, 0.00393973012f, 0.00395606691f, 0.00397225469f, 0.00398829253f,
 0.00400418136f, 0.00401991932f, 0.00403550686f, 0.00405094353f, 0.00406622794f, 0.004081361f, 0.00409634132f, 0.00411116891f,
 0.00412584329f, 0.00414036401f, 0.00415473105f, 0.00416894304f, 0.00418300088f, 0.0041969032f, 0.00421064999f, 0.00422424078f,
 0.00423767557f, 0.00425095344f, 0.00426407438f, 0.00427703792f, 0.00428984407f, 0.0043024919f, 0.00431498187f, 0.00432731258f,
 0.00433948496f, 0.00435149763f, 0.00436335057f, 0.00437504379f, 0.00438657729f, 0.00439794967f, 0.00440916186f, 0.00442021247f,
 0.00443110242f, 0.00444183033f, 0.00445239665f, 0.00446280092f, 0.00447304267f, 0.00448312191f, 0.00449303864f, 0.00450279191f,
 0.00451238221f, 0.00452180905f, 0.00453107199f, 0.00454017147f, 0.00454910658f, 0.00455787778f, 0.00456648413f, 0.0045749261f,
 0.00458320277f, 0.00459131505f, 0.00459926203f, 0.00460704323f, 0.00461465959f, 0.00462211017f, 0.00462939497f, 0.00463651353f,
 0.00464346632f, 0.00465025334f, 0.00465687364f, 0.00466332771f, 0.00466961507f, 0.00467573619f, 0.0046816906f, 0.0046874783f,
 0.00469309883f, 0.00469855266f, 0.00470383978f, 0.00470895926f, 0.00471391203f, 0.00471869763f, 0.00472331559f, 0.00472776685f,
 0.00473205047f, 0.00473616691f, 0.00474011572f, 0.00474389782f, 0.00474751182f, 0.00475095864f, 0.0047542383f, 0.00475735031f,
 0.00476029515f, 0.00476307282f, 0.00476568285f, 0.00476812571f, 0.00477040093f, 0.00477250945f, 0.00477445032f, 0.00477622449f,
 0.00477783149f, 0.00477927132f, 0.00478054443f, 0.00478165038f, 0.00478258962f, 0.00478336215f, 0.00478396844f, 0.00478440756f,
 0.0047846809f, 0.00478478754f, 0.00478472793f, 0.00478450255f, 0.0047841114f, 0.004783554f, 0.00478283083f, 0.00478194281f,
 0.00478088902f, 0.00477966992f, 0.00477828551f, 0.00477673672f, 0.00477502309f, 0.00477314461f, 0.00477110222f, 0.00476889545f,
 0.0047665243f, 0.00476398971f, 0.00476129167f, 0.00475843018f, 0.00475540524f, 0.00475221779f, 0.00474886736f, 0.00474535488f,
 0.00474167941f, 0.00473784236f, 0.00473384373f, 0.00472968351f, 0.00472536217f, 0.00472087972f, 0.00471623614f, 0.00471143285f,
 0.0047064689f, 0.00470134569f, 0.0046960623f, 0.00469062012f, 0.00468501868f, 0.00467925845f, 0.00467334036f, 0.00466726394f,
 0.00466102967f, 0.00465463847f, 0.00464808987f, 0.00464138482f, 0.0046345233f, 0.00462750578f, 0.00462033274f, 0.00461300462f,
 0.00460552098f, 0.00459788321f, 0.0045900913f, 0.00458214525f, 0.00457404647f, 0.00456579402f, 0.0045573893f, 0.00454883231f,
 0.00454012351f, 0.00453126291f, 0.0045222519f, 0.00451309001f, 0.00450377818f, 0.00449431641f, 0.00448470563f, 0.00447494583f,
 0.00446503796f, 0.004454982f, 0.00444477843f, 0.00443442771f, 0.00442393078f, 0.00441328762f, 0.00440249918f, 0.00439156499f,
 0.00438048644f, 0.004369264f, 0.00435789768f, 0.00434638839f, 0.00433473615f, 0.00432294188f, 0.00431100605f, 0.00429892866f,
 0.0042867111f, 0.00427435338f, 0.00426185597f, 0.00424921978f, 0.0042364453f, 0.00422353251f, 0.00421048235f, 0.00419729529f,
 0.00418397225f, 0.00417051325f, 0.0041569192f, 0.00414319057f, 0.00412932783f, 0.00411533192f, 0.00410120282f, 0.00408694148f,
 0.00407254882f, 0.00405802485f, 0.00404337049f, 0.00402858621f, 0.00401367247f, 0.00399863021f, 0.0039834599f, 0.00396816246f,
 0.0039527379f, 0.00393718714f, 0.00392151112f, 0.00390570983f, 0.00388978445f, 0.00387373543f, 0.00385756348f, 0.00384126906f,
 0.00382485311f, 0.00380831608f, 0.00379165867f, 0.0037748816f, 0.00375798554f, 0.00374097121f, 0.00372383907f, 0.00370659004f,
 0.0036892246f, 0.00367174344f, 0.0036541475f, 0.00363643724f, 0.00361861358f, 0.00360067701f, 0.00358262821f, 0.00356446812f,
 0.0035461972f, 0.00352781639f, 0.00350932637f, 0.00349072763f, 0.00347202108f, 0.00345320744f, 0.00343428738f, 0.00341526163f,
 0.0033961311f, 0.00337689626f, 0.00335755805f, 0.00333811715f, 0.00331857451f, 0.00329893059f, 0.00327918609f, 0.00325934216f,
 0.00323939906f, 0.00321935792f, 0.00319921947f, 0.00317898463f, 0.00315865362f, 0.00313822762f, 0.00311770756f, 0.0030970939f,
 0.00307638734f, 0.00305558904f, 0.00303469971f, 0.0030137198f, 0.00299265049f, 0.00297149247f, 0.00295024645f, 0.00292891311f,
 0.00290749362f, 0.00288598868f, 0.00286439876f, 0.00284272502f, 0.0028209684f, 0.00279912911f, 0.00277720857f, 0.00275520748f,
 0.00273312628f, 0.00271096639f, 0.00268872804f, 0.00266641262f, 0.00264402037f, 0.00262155267f, 0.00259901001f, 0.00257639354f,
 0.00255370373f, 0.00253094174f, 0.00250810804f, 0.00248520379f, 0.00246222992f, 0.00243918691f, 0.00241607591f, 0.00239289762f,
 0.00236965297f, 0.0023463429f, 0.00232296786f, 0.00229952927f, 0.00227602758f, 0.00225246395f, 0.00222883909f, 0.00220515369f,
 0.00218140893f, 0.00215760572f, 0.00213374454f, 0.00210982654f, 0.00208585244f, 0.00206182315f, 0.00203773985f, 0.00201360299f,
 0.00198941375f, 0.00196517259f, 0.00194088102f, 0.00191653939f, 0.00189214887f, 0.00186771015f, 0.00184322428f, 0.00181869208f,
 0.00179411448f, 0.00176949229f, 0.00174482632f, 0.00172011764f, 0.00169536716f, 0.00167057558f, 0.00164574385f, 0.00162087299f,
 0.00159596384f, 0.0015710172f, 0.00154603401f, 0.00152101519f, 0.00149596157f, 0.00147087418f, 0.00144575373f, 0.00142060139f,
 0.00139541773f, 0.00137020391f, 0.00134496065f, 0.00131968898f, 0.00129438972f, 0.0012690638f, 0.00124371215f, 0.00121833559f,
 0.00119293504f, 0.00116751157f, 0.00114206574f, 0.00111659872f, 0.00109111145f, 0.00106560462f, 0.00104007917f, 0.00101453613f,
 0.000988976331f, 0.000963400642f, 0.000937809993f, 0.000912205316f, 0.000886587426f, 0.000860957312f, 0.000835315848f, 0.000809663907f,
 0.000784002419f, 0.000758332317f, 0.000732654415f, 0.000706969586f, 0.000681278878f, 0.000655583048f, 0.000629883085f, 0.000604179804f,
 0.000578474195f, 0.000552767073f, 0.000527059368f, 0.000501352013f, 0.000475645793f, 0.000449941668f, 0.00042424057f, 0.000398543314f,
 0.000372850831f, 0.000347164023f, 0.000321483734f, 0.000295810896f, 0.000270146353f, 0.000244491035f, 0.000218845817f, 0.000193211556f,
 0.000167589169f, 0.000141979515f, 0.00011638349f, 9.08019574e-05f, 6.5235814e-05f, 3.96859286e-05f, 1.41531791e-05f, -1.13615606e-05f,
 -3.68574147e-05f, -6.23335145e-05f, -8.77889761e-05f, -0.000113222944f, -0.000138634554f, -0.000164022917f, -0.000189387181f, -0.000214726475f,
 -0.000240039953f, -0.000265326729f, -0.000290585973f, -0.000315816782f, -0.000341018342f, -0.000366189779f, -0.00039133025f, -0.00041643891f,
 -0.000441514887f, -0.000466557336f, -0.000491565384f, -0.000516538275f, -0.000541475078f, -0.000566374976f, -0.000591237156f, -0.000616060803f,
 -0.000640844984f, -0.000665588945f, -0.000690291869f, -0.000714952825f, -0.000739571115f, -0.000764145807f, -0.000788676145f, -0.000813161256f,
 -0.000837600383f, -0.000861992652f, -0.000886337308f, -0.000910633535f, -0.00093488046f, -0.000959077268f, -0.000983223203f, -0.00100731757f,
 -0.00103135931f, -0.00105534785f, -0.00107928237f, -0.00110316195f, -0.00112698588f, -0.00115075335f, -0.00117446354f, -0.00119811588f,
 -0.0012217093f, -0.00124524313f, -0.00126871665f, -0.00129212905f, -0.00131547963f, -0.00133876747f, -0.00136199186f, -0.00138515222f,
 -0.00140824751f, -0.00143127714f, -0.00145424029f, -0.00147713628f, -0.00149996439f, -0.0015227237f, -0.00154541363f, -0.00156803336f,
 -0.00159058219f, -0.00161305943f, -0.00163546426f, -0.00165779598f, -0.00168005389f, -0.00170223729f, -0.00172434549f, -0.00174637767f,
 -0.00176833314f, -0.00179021119f, -0.00181201124f, -0.00183373247f, -0.0018553742f, -0.00187693571f, -0.00189841643f, -0.00191981555f,
 -0.00194113236f, -0.00196236628f, -0.00198351662f, -0.00200458267f, -0.00202556374f, -0.00204645935f, -0.00206726859f, -0.00208799075f,
 -0.00210862537f, -0.00212917174f, -0.00214962917f, -0.0021699972f, -0.00219027488f, -0.00221046177f, -0.00223055715f, -0.00225056056f,
 -0.00227047107f, -0.00229028845f, -0.00231001154f, -0.00232964032f, -0.00234917365f, -0.00236861128f, -0.00238795253f, -0.00240719668f,
 -0.00242634327f, -0.00244539161f, -0.00246434123f, -0.00248319143f, -0.00250194152f, -0.00252059102f, -0.00253913947f, -0.00255758641f,
 -0.00257593091f, -0.00259417249f, -0.00261231069f, -0.00263034506f, -0.00264827488f, -0.0026660997f, -0.00268381881f, -0.00270143175f,
 -0.00271893828f, -0.00273633748f, -0.00275362888f, -0.00277081202f, -0.00278788642f, -0.00280485163f, -0.00282170693f, -0.00283845211f,
 -0.00285508647f, -0.00287160953f, -0.00288802059f, -0.00290431967f, -0.00292050582f, -0.00293657859f, -0.00295253797f, -0.00296838279f,
 -0.00298411329f, -0.00299972855f, -0.00301522808f, -0.0030306119f, -0.00304587907f, -0.00306102913f, -0.00307606207f, -0.0030909772f,
 -0.00310577382f, -0.00312045217f, -0.00313501107f, -0.00314945052f, -0.00316377031f, -0.00317796948f, -0.00319204805f, -0.00320600555f,
 -0.00321984128f, -0.00323355524f, -0.00324714673f, -0.00326061575f, -0.0032739616f, -0.00328718382f, -0.00330028241f, -0.00331325666f,
 -0.00332610658f, -0.00333883148f, -0.00335143111f, -0.00336390501f, -0.00337625318f, -0.00338847493f, -0.00340057025f, -0.00341253844f,
 -0.00342437951f, -0.00343609275f, -0.00344767841f, -0.00345913554f, -0.00347046438f, -0.00348166423f, -0.00349273509f, -0.00350367674f,
 -0.00351448846f, -0.00352517026f, -0.00353572192f, -0.00354614295f, -0.00355643313f, -0.00356659247f, -0.00357662025f, -0.00358651672f,
 -0.0035962814f, -0.00360591384f, -0.00361541403f, -0.00362478197f, -0.00363401696f, -0.00364311901f, -0.00365208788f, -0.00366092334f,
 -0.00366962515f, -0.00367819308f, -0.00368662714f, -0.00369492709f, -0.00370309246f, -0.00371112325f, -0.00371901947f, -0.00372678041f,
 -0.00373440655f, -0.00374189718f, -0.00374925253f, -0.00375647238f, -0.00376355625f, -0.00377050438f, -0.00377731631f, -0.00378399226f,
 -0.00379053177f, -0.00379693508f, -0.00380320149f, -0.00380933145f, -0.00381532451f, -0.0038211809f, -0.00382690015f, -0.00383248227f,
 -0.00383792724f, -0.00384323485f, -0.00384840509f, -0.00385343796f, -0.00385833345f, -0.00386309111f, -0.00386771141f, -0.00387219386f,
 -0.00387653848f, -0.00388074527f, -0.00388481421f, -0.00388874533f, -0.0038925386f, -0.00389619381f, -0.00389971095f, -0.00390309026f,
 -0.00390633149f, -0.00390943466f, -0.00391239952f, -0.00391522655f, -0.00391791575f, -0.00392046664f, -0.0039228797f, -0.00392515492f,
 -0.00392729184f, -0.00392929092f, -0.0039311517f, -0.00393287512f, -0.00393446069f, -0.00393590797f, -0.00393721787f, -0.00393838994f,
 -0.00393942464f, -0.00394032151f, -0.003941081f, -0.00394170312f, -0.00394218788f, -0.00394253526f, -0.00394274574f, -0.00394281885f,
 -0.00394275505f, -0.00394255435f, -0.00394221675f, -0.0039417427f, -0.00394113222f, -0.0039403853f, -0.00393950194f, -0.00393848261f,
 -0.0039373273f, -0.00393603556f, -0.00393460877f, -0.00393304601f, -0.00393134775f, -0.00392951444f, -0.00392754609f, -0.0039254427f,
 -0.00392320426f, -0.00392083172f, -0.0039183246f, -0.0039156829f, -0.00391290756f, -0.00390999811f, -0.00390695548f, -0.00390377897f,
 -0.00390046951f, -0.00389702688f, -0.00389345153f, -0.00388974347f, -0.00388590316f, -0.00388193084f, -0.0038778265f, -0.00387359061f,
 -0.00386922318f, -0.00386472489f, -0.00386009552f, -0.00385533553f, -0.00385044515f, -0.00384542462f, -0.00384027441f, -0.00383499451f,
 -0.00382958539f, -0.00382404728f, -0.00381838041f, -0.00381258503f, -0.00380666158f, -0.00380061055f, -0.00379443169f, -0.0037881257f,
 -0.00378169306f, -0.00377513352f, -0.00376844779f, -0.00376163633f, -0.00375469914f, -0.00374763669f, -0.0037404492f, -0.00373313739f,
 -0.00372570101f, -0.003718141f, -0.00371045736f, -0.00370265055f, -0.00369472103f, -0.00368666882f, -0.00367849483f, -0.00367019884f,
 -0.00366178178f, -0.00365324365f, -0.00364458491f, -0.00363580603f, -0.00362690748f, -0.00361788948f, -0.00360875251f, -0.00359949702f,
 -0.0035901235f, -0.00358063215f, -0.00357102323f, -0.00356129766f, -0.00355145568f, -0.00354149751f, -0.00353142363f, -0.00352123473f,
 -0.00351093104f, -0.00350051303f, -0.00348998117f, -0.00347933592f, -0.00346857752f, -0.00345770689f, -0.00344672427f, -0.00343562989f,
 -0.00342442445f, -0.00341310841f, -0.00340168225f, -0.00339014642f, -0.00337850139f, -0.00336674764f, -0.00335488585f, -0.00334291602f,
 -0.00333083933f, -0.00331865554f, -0.0033063658f, -0.00329397037f, -0.00328146946f, -0.00326886401f, -0.00325615448f, -0.00324334111f,
 -0.00323042483f, -0.00321740564f, -0.0032042847f, -0.00319106202f, -0.00317773828f, -0.0031643142f, -0.00315079f, -0.00313716661f,
 -0.00312344427f, -0.00310962368f, -0.00309570529f, -0.00308168982f, -0.00306757749f, -0.00305336947f, -0.00303906575f, -0.00302466704f,
 -0.00301017403f, -0.00299558719f, -0.00298090721f, -0.00296613458f, -0.00295126997f, -0.00293631386f, -0.00292126695f, -0.0029061297f,
 -0.00289090257f, -0.00287558651f, -0.00286018196f, -0.00284468965f, -0.00282911002f, -0.00281344354f, -0.00279769115f, -0.00278185331f,
 -0.00276593049f, -0.00274992338f, -0.00273383292f, -0.00271765934f, -0.00270140334f, -0.00268506561f, -0.00266864686f, -0.00265214755f,
 -0.00263556861f, -0.00261891028f, -0.00260217348f, -0.00258535868f, -0.00256846659f, -0.00255149789f, -0.00253445306f, -0.00251733302f,
 -0.00250013825f, -0.00248286943f, -0.00246552727f, -0.00244811247f, -0.00243062549f, -0.00241306704f, -0.00239543803f, -0.00237773871f,
 -0.00235997024f, -0.00234213285f, -0.00232422748f, -0.00230625481f, -0.00228821533f, -0.00227010972f, -0.00225193892f, -0.00223370316f,
 -0.0022154036f, -0.00219704071f, -0.00217861519f, -0.00216012774f, -0.00214157905f, -0.00212296983f, -0.00210430077f, -0.00208557234f,
 -0.0020667857f, -0.00204794109f, -0.00202903943f, -0.00201008143f, -0.00199106755f, -0.00197199895f, -0.00195287587f, -0.00193369936f,
 -0.00191446999f, -0.00189518835f, -0.00187585538f, -0.00185647164f, -0.00183703785f, -0.0018175547f, -0.001798023f, -0.00177844346f,
 -0.00175881677f, -0.00173914363f, -0.00171942462f, -0.00169966079f, -0.0016798526f, -0.00166000077f, -0.0016401062f, -0.0016201695f,
 -0.00160019135f, -0.00158017257f, -0.00156011386f, -0.00154001592f, -0.00151987956f, -0.00149970537f, -0.00147949415f, -0.00145924662f,
 -0.00143896358f, -0.00141864573f, -0.00139829365f, -0.0013779084f, -0.00135749031f, -0.00133704045f, -0.00131655938f, -0.00129604794f,
 -0.0012755068f, -0.00125493668f, -0.00123433827f, -0.0012137125f, -0.00119305996f, -0.00117238134f, -0.00115167745f, -0.00113094912f,
 -0.00111019704f, -0.0010894218f, -0.00106862432f, -0.00104780518f, -0.00102696533f, -0.00100610533f, -0.000985226012f, -0.000964328065f,
 -0.000943412248f, -0.000922479318f, -0.000901530031f, -0.000880565087f, -0.000859585241f, -0.000838591193f, -0.000817583757f, -0.000796563632f,
 -0.000775531575f, -0.000754488341f, -0.00073343463f, -0.000712371198f, -0.000691298803f, -0.000670218142f, -0.000649129972f, -0.000628035108f,
 -0.000606934133f, -0.000585827918f, -0.000564717164f, -0.000543602626f, -0.000522485003f, -0.000501365052f, -0.000480243471f, -0.000459121045f,
 -0.000437998475f, -0.000416876544f, -0.000395755953f, -0.000374637428f, -0.000353521697f, -0.000332409545f, -0.000311301643f, -0.000290198746f,
 -0.000269101583f, -0.000248010881f, -0.000226927397f, -0.000205851815f, -0.000184784876f, -0.000163727324f, -0.00014267987f, -0.000121643236f,
 -0.000100618156f, -7.96053428e-05f, -5.86055212e-05f, -3.76194112e-05f, -1.66477366e-05f, 4.30878708e-06f, 2.52494428e-05f, 4.61735108e-05f,
 6.70802838e-05f, 8.79690342e-05f, 0.000108839064f, 0.000129689652f, 0.000150520093f, 0.000171329666f, 0.000192117674f, 0.000212883402f,
 0.000233626153f, 0.000254345214f, 0.0002750399f, 0.000295709498f, 0.000316353311f, 0.00033697061f, 0.000357560755f, 0.00037812299f,
 0.000398656673f, 0.000419161079f, 0.000439635507f, 0.000460079318f, 0.000480491784f, 0.000500872207f, 0.000521219918f, 0.000541534275f,
 0.000561814522f, 0.00058206002f, 0.000602270127f, 0.000622444088f, 0.000642581261f, 0.000662681006f, 0.000682742626f, 0.000702765421f,
 0.000722748809f, 0.000742692035f, 0.000762594456f, 0.000782455434f, 0.000802274328f, 0.000822050381f, 0.000841783069f, 0.000861471635f,
 0.000881115498f, 0.000900714018f, 0.000920266437f, 0.000939772232f, 0.000959230703f, 0.000978641212f, 0.000998003059f, 0.00101731578f,
 0.00103657856f, 0.00105579081f, 0.00107495196f, 0.00109406142f, 0.00111311837f, 0.00113212236f, 0.00115107279f, 0.00116996886f,
 0.00118881022f, 0.00120759592f, 0.00122632564f, 0.00124499865f, 0.00126361428f, 0.00128217204f, 0.00130067125f, 0.00131911144f,
 0.00133749179f, 0.00135581195f, 0.00137407123f, 0.00139226892f, 0.00141040457f, 0.00142847758f, 0.00144648738f, 0.00146443327f,
 0.0014823149f, 0.00150013145f, 0.00151788245f, 0.00153556745f, 0.00155318563f, 0.00157073676f, 0.00158822001f, 0.00160563481f,
 0.00162298081f, 0.00164025743f, 0.00165746384f, 0.00167459983f, 0.0016916648f, 0.00170865795f, 0.00172557903f, 0.00174242747f,
 0.00175920257f, 0.00177590398f, 0.00179253099f, 0.00180908327f, 0.00182556023f, 0.00184196129f, 0.00185828598f, 0.00187453383f,
 0.00189070427f, 0.00190679694f, 0.00192281115f, 0.00193874643f, 0.00195460231f, 0.00197037845f, 0.00198607426f, 0.00200168905f,
 0.00201722258f, 0.00203267438f, 0.00204804377f, 0.0020633305f, 0.0020785341f, 0.00209365389f, 0.0021086894f, 0.00212364062f,
 0.00213850662f, 0.00215328694f, 0.00216798158f, 0.00218258961f, 0.00219711079f, 0.00221154466f, 0.00222589099f, 0.00224014907f,
 0.00225431845f, 0.00226839888f, 0.00228238967f, 0.00229629083f, 0.00231010164f, 0.00232382189f, 0.00233745086f, 0.00235098833f,
 0.00236443407f, 0.00237778737f, 0.00239104801f, 0.00240421551f, 0.00241728965f, 0.00243026973f, 0.00244315574f, 0.00245594722f,
 0.00246864348f, 0.0024812445f, 0.00249374961f, 0.00250615878f, 0.00251847156f, 0.00253068749f, 0.00254280609f, 0.00255482737f,
 0.00256675086f, 0.0025785761f, 0.00259030261f, 0.00260193041f, 0.00261345902f, 0.00262488821f, 0.00263621751f, 0.0026474467f,
 0.00265857531f, 0.0026696031f, 0.00268052984f, 0.0026913553f, 0.00270207878f, 0.00271270052f, 0.00272322004f, 0.00273363688f,
 0.00274395081f, 0.0027541616f, 0.00276426901f, 0.00277427281f, 0.00278417254f, 0.00279396819f, 0.00280365907f, 0.0028132454f,
 0.00282272673f, 0.00283210282f, 0.00284137344f, 0.00285053835f, 0.00285959733f, 0.0028685499f, 0.0028773963f, 0.00288613583f,
 0.00289476849f, 0.00290329405f, 0.00291171228f, 0.00292002317f, 0.00292822602f, 0.00293632108f, 0.00294430787f, 0.00295218662f,
 0.00295995641f, 0.00296761771f, 0.00297517027f, 0.0029826134f, 0.00298994756f, 0.00299717207f, 0.00300428714f, 0.00301129231f,
 0.00301818759f, 0.00302497298f, 0.003031648f, 0.00303821242f, 0.00304466649f, 0.00305100996f, 0.0030572426f, 0.00306336419f,
 0.00306937494f, 0.00307527417f, 0.00308106234f, 0.00308673899f, 0.0030923041f, 0.0030977577f, 0.0031030993f, 0.00310832914f,
 0.00311344699f, 0.00311845285f, 0.00312334672f, 0.00312812813f, 0.00313279731f, 0.00313735404f, 0.00314179854f, 0.00314613036f,
 0.00315034948f, 0.00315445615f, 0.00315845013f, 0.00316233118f, 0.00316609954f, 0.00316975499f, 0.00317329774f, 0.00317672733f,
 0.003180044f, 0.00318324775f, 0.00318633835f, 0.00318931602f, 0.00319218053f, 0.00319493213f, 0.00319757056f, 0.00320009585f,
 0.0032025082f, 0.00320480717f, 0.00320699345f, 0.00320906634f, 0.00321102631f, 0.00321287313f, 0.00321460702f, 0.00321622798f,
 0.00321773603f, 0.00321913091f, 0.00322041311f, 0.00322158239f, 0.00322263874f, 0.00322358264f, 0.00322441361f, 0.00322513189f,
 0.00322573772f, 0.00322623109f, 0.00322661176f, 0.00322688022f, 0.00322703645f, 0.00322708022f, 0.003227012f, 0.00322683179f,
 0.00322653959f, 0.00322613539f, 0.00322561967f, 0.00322499219f, 0.00322425296f, 0.00322340243f, 0.0032224406f, 0.00322136772f,
 0.00322018354f, 0.00321888831f, 0.00321748247f, 0.00321596581f, 0.00321433856f, 0.00321260095f, 0.0032107532f, 0.0032087951f,
 0.00320672709f, 0.00320454943f, 0.00320226187f, 0.00319986488f, 0.00319735869f, 0.0031947433f, 0.00319201872f, 0.00318918563f,
 0.00318624382f, 0.0031831935f, 0.00318003492f, 0.00317676831f, 0.0031733939f, 0.00316991168f, 0.00316632213f, 0.00316262525f,
 0.00315882149f, 0.00315491087f, 0.00315089338f, 0.00314676971f, 0.00314253988f, 0.00313820411f, 0.00313376263f, 0.00312921568f,
 0.00312456349f, 0.00311980629f, 0.00311494456f, 0.00310997805f, 0.00310490746f, 0.0030997328f, 0.00309445453f, 0.00308907265f,
 0.00308358762f, 0.00307799969f, 0.00307230931f, 0.00306651625f, 0.00306062121f, 0.00305462442f, 0.00304852612f, 0.00304232654f,
 0.00303602591f, 0.0030296247f, 0.00302312337f, 0.00301652169f, 0.00300982036f, 0.00300301961f, 0.0029961199f, 0.00298912125f,
 0.0029820241f, 0.00297482894f, 0.00296753575f, 0.00296014524f, 0.00295265741f, 0.00294507272f, 0.00293739163f, 0.00292961439f,
 0.00292174146f, 0.00291377283f, 0.0029057092f, 0.00289755082f, 0.00288929814f, 0.00288095116f, 0.00287251058f, 0.00286397687f,
 0.00285535003f, 0.00284663076f, 0.00283781905f, 0.00282891584f, 0.00281992089f, 0.00281083514f, 0.00280165859f, 0.00279239169f,
 0.00278303493f, 0.00277358876f, 0.00276405341f, 0.00275442936f, 0.00274471682f, 0.00273491675f, 0.0027250289f, 0.0027150542f,
 0.00270499266f, 0.00269484497f, 0.00268461136f, 0.00267429254f, 0.0026638885f, 0.00265340018f, 0.00264282757f, 0.00263217138f,
 0.00262143183f, 0.0026106094f, 0.00259970478f, 0.0025887182f, 0.0025776499f, 0.0025665008f, 0.00255527114f, 0.00254396116f,
 0.00253257155f, 0.00252110278f, 0.00250955508f, 0.00249792938f, 0.00248622568f, 0.00247444445f, 0.00246258662f, 0.00245065219f,
 0.00243864185f, 0.00242655585f, 0.0024143951f, 0.00240215985f, 0.00238985033f, 0.00237746746f, 0.00236501149f, 0.00235248287f,
 0.00233988208f, 0.0023272098f, 0.00231446652f, 0.00230165245f, 0.00228876853f, 0.00227581477f, 0.00226279208f, 0.00224970095f,
 0.00223654159f, 0.00222331448f, 0.00221002055f, 0.00219666003f, 0.00218323339f, 0.00216974132f, 0.00215618429f, 0.002142563f,
 0.00212887744f, 0.00211512856f, 0.00210131682f, 0.0020874429f, 0.00207350682f, 0.00205950974f, 0.00204545166f, 0.00203133351f,
 0.00201715576f, 0.00200291863f, 0.00198862306f, 0.00197426928f, 0.00195985823f, 0.00194539002f, 0.00193086534f, 0.00191628491f,
 0.00190164917f, 0.00188695861f, 0.00187221379f, 0.00185741531f, 0.00184256374f, 0.00182765967f, 0.00181270356f, 0.00179769599f,
 0.00178263767f, 0.00176752894f, 0.0017523705f, 0.00173716282f, 0.00172190659f, 0.00170660228f, 0.0016912506f, 0.00167585188f,
 0.00166040694f, 0.00164491625f, 0.00162938028f, 0.00161379983f, 0.00159817527f, 0.00158250728f, 0.00156679633f, 0.00155104324f,
 0.00153524836f, 0.00151941238f, 0.00150353578f, 0.00148761924f, 0.00147166336f, 0.00145566871f, 0.00143963576f, 0.00142356532f,
 0.00140745775f, 0.00139131374f, 0.00137513399f, 0.00135891885f, 0.00134266913f, 0.00132638519f, 0.00131006795f, 0.00129371765f,
 0.00127733522f, 0.00126092101f, 0.0012444756f, 0.0012279998f, 0.00121149409f, 0.00119495904f, 0.00117839524f, 0.00116180337f,
 0.00114518392f, 0.00112853758f, 0.00111186493f, 0.00109516666f, 0.00107844314f, 0.00106169516f, 0.00104492321f, 0.00102812797f,
 0.00101131003f, 0.00099446997f, 0.000977608492f, 0.000960726f, 0.000943823252f, 0.000926900771f, 0.000909959257f, 0.000892999233f,
 0.000876021339f, 0.000859026157f, 0.000842014328f, 0.000824986375f, 0.000807943055f, 0.000790884777f, 0.000773812295f, 0.000756726193f,
 0.000739626994f, 0.000722515397f, 0.000705391984f, 0.000688257336f, 0.000671112037f, 0.000653956726f, 0.000636792043f, 0.000619618513f,
 0.000602436776f, 0.000585247471f, 0.000568051124f, 0.000550848432f, 0.000533639977f, 0.000516426284f, 0.00049920805f, 0.0004819858f,
 0.000464760204f, 0.000447531842f, 0.000430301268f, 0.000413069152f, 0.000395836076f, 0.000378602621f, 0.000361369399f, 0.000344136992f,
 0.00032690604f, 0.000309677096f, 0.000292450772f, 0.000275227707f, 0.000258008426f, 0.000240793568f, 0.000223583731f, 0.000206379511f,
 0.000189181475f, 0.000171990236f, 0.000154806388f, 0.00013763053f, 0.000120463235f, 0.000103305101f, 8.61567241e-05f, 6.90186862e-05f,
 5.18915804e-05f, 3.47759888e-05f, 1.76725043e-05f, 5.81710196e-07f, -1.64958092e-05f, -3.35594705e-05f, -5.06086908e-05f, -6.76428826e-05f,
 -8.46614712e-05f, -0.000101663878f, -0.000118649521f, -0.000135617811f, -0.000152568202f, -0.000169500083f, -0.000186412886f, -0.000203306059f,
 -0.000220179019f, -0.000237031185f, -0.000253861974f, -0.000270670862f, -0.000287457253f, -0.000304220564f, -0.000320960273f, -0.000337675767f,
 -0.000354366523f, -0.000371031958f, -0.00038767152f, -0.000404284627f, -0.000420870754f, -0.000437429349f, -0.00045395983f, -0.000470461644f,
 -0.000486934267f, -0.000503377116f, -0.000519789639f, -0.00053617137f, -0.000552521611f, -0.000568839954f, -0.000585125817f, -0.000601378619f,
 -0.000617597892f, -0.000633783056f, -0.000649933529f, -0.000666048843f, -0.000682128419f, -0.000698171789f, -0.000714178372f, -0.000730147643f,
 -0.00074607908f, -0.000761972158f, -0.000777826353f, -0.0007936412f, -0.000809416058f, -0.000825150521f, -0.000840844004f, -0.000856496044f,
 -0.000872106059f, -0.000887673639f, -0.000903198204f, -0.00091867923f, -0.000934116251f, -0.000949508802f, -0.000964856299f, -0.000980158336f,
 -0.000995414215f, -0.00101062376f, -0.00102578616f, -0.00104090117f, -0.00105596823f, -0.00107098673f, -0.00108595635f, -0.00110087648f,
 -0.00111574668f, -0.00113056658f, -0.00114533561f, -0.00116005319f, -0.00117471907f, -0.00118933257f, -0.00120389333f, -0.0012184009f,
 -0.00123285479f, -0.00124725455f, -0.00126159971f, -0.00127588969f, -0.00129012426f, -0.00130430295f, -0.00131842506f, -0.00133249047f,
 -0.00134649838f, -0.00136044866f, -0.00137434073f, -0.00138817425f, -0.00140194863f, -0.00141566352f, -0.00142931845f, -0.00144291308f,
 -0.00145644695f, -0.00146991957f, -0.0014833305f, -0.0014966795f, -0.00150996598f, -0.0015231896f, -0.00153634988f, -0.00154944661f,
 -0.00156247907f, -0.00157544715f, -0.00158835028f, -0.00160118809f, -0.00161396025f, -0.00162666629f, -0.00163930585f, -0.00165187847f,
 -0.00166438392f, -0.00167682173f, -0.00168919156f, -0.00170149293f, -0.00171372551f, -0.00172588904f, -0.00173798297f, -0.00175000704f,
 -0.00176196091f, -0.00177384412f, -0.00178565644f, -0.00179739739f, -0.00180906674f, -0.00182066404f, -0.00183218892f, -0.00184364116f,
 -0.00185502029f, -0.00186632609f, -0.00187755818f, -0.00188871613f, -0.0018997998f, -0.00191080873f, -0.00192174257f, -0.00193260098f,
 -0.00194338383f, -0.00195409055f, -0.00196472113f, -0.00197527511f, -0.00198575202f, -0.00199615164f, -0.00200647395f, -0.00201671827f,
 -0.00202688458f, -0.0020369722f, -0.00204698136f, -0.00205691159f, -0.00206676242f, -0.00207653362f, -0.00208622497f, -0.00209583645f,
 -0.00210536737f, -0.00211481773f, -0.00212418707f, -0.00213347515f, -0.00214268197f, -0.00215180707f, -0.00216085021f, -0.00216981093f,
 -0.00217868946f, -0.00218748534f, -0.0021961981f, -0.00220482773f, -0.00221337401f, -0.00222183671f, -0.00223021535f, -0.00223851018f,
 -0.00224672048f, -0.00225484627f, -0.00226288731f, -0.00227084337f, -0.00227871444f, -0.00228649983f, -0.00229419977f, -0.00230181403f,
 -0.00230934215f, -0.00231678435f, -0.00232413993f, -0.00233140914f, -0.0023385915f, -0.00234568678f, -0.00235269521f, -0.00235961634f,
 -0.00236644992f, -0.00237319572f, -0.00237985398f, -0.00238642422f, -0.00239290646f, -0.00239930046f, -0.00240560574f, -0.00241182279f,
 -0.00241795089f, -0.00242399029f, -0.00242994074f, -0.00243580178f, -0.00244157389f, -0.00244725635f, -0.00245284941f, -0.00245835283f,
 -0.00246376637f, -0.00246909005f, -0.00247432385f, -0.00247946754f, -0.0024845209f, -0.00248948392f, -0.00249435659f, -0.0024991387f,
 -0.00250383024f, -0.00250843097f, -0.0025129409f, -0.00251736003f, -0.00252168812f, -0.0025259254f, -0.00253007119f, -0.00253412593f,
 -0.00253808964f, -0.00254196161f, -0.00254574255f, -0.00254943175f, -0.00255302968f, -0.00255653588f, -0.00255995058f, -0.00256327353f,
 -0.00256650476f, -0.00256964448f, -0.00257269223f, -0.00257564802f, -0.0025785123f, -0.00258128438f, -0.00258396473f, -0.00258655334f,
 -0.00258904975f, -0.00259145442f, -0.0025937669f, -0.00259598764f, -0.00259811617f, -0.00260015298f, -0.00260209758f, -0.00260395044f,
 -0.00260571134f, -0.00260738004f, -0.002608957f, -0.002610442f, -0.00261183525f, -0.00261313654f, -0.00261434587f, -0.00261546345f,
 -0.00261648931f, -0.00261742342f, -0.0026182658f, -0.00261901668f, -0.00261967583f, -0.00262024323f, -0.00262071937f, -0.00262110401f,
 -0.00262139738f, -0.00262159924f, -0.00262170983f, -0.00262172916f, -0.00262165745f, -0.00262149493f, -0.00262124115f, -0.00262089656f,
 -0.00262046116f, -0.00261993497f, -0.0026193182f, -0.00261861086f, -0.00261781318f, -0.00261692517f, -0.00261594681f, -0.00261487835f,
 -0.00261371979f, -0.00261247135f, -0.00261113327f, -0.00260970532f, -0.00260818796f, -0.0026065812f, -0.00260488479f, -0.00260309945f,
 -0.00260122516f, -0.00259926193f, -0.00259720976f, -0.00259506912f, -0.00259283977f, -0.00259052217f, -0.00258811656f, -0.00258562271f,
 -0.00258304109f, -0.00258037169f, -0.00257761474f, -0.00257477048f, -0.00257183891f, -0.00256882049f, -0.002565715f, -0.00256252289f,
 -0.00255924417f, -0.00255587907f, -0.00255242805f, -0.00254889089f, -0.00254526804f, -0.00254155952f, -0.00253776554f, -0.00253388658f,
 -0.00252992264f, -0.00252587372f, -0.00252174051f, -0.00251752278f, -0.002513221f, -0.00250883517f, -0.00250436575f, -0.00249981275f,
 -0.00249517662f, -0.00249045738f, -0.00248565525f, -0.00248077069f, -0.00247580395f, -0.00247075479f, -0.0024656239f, -0.00246041152f,
 -0.00245511765f, -0.00244974275f, -0.00244428683f, -0.00243875058f, -0.00243313378f, -0.00242743688f, -0.00242166035f, -0.00241580396f,
 -0.00240986841f, -0.00240385393f, -0.00239776075f, -0.00239158887f, -0.00238533877f, -0.0023790109f, -0.00237260549f, -0.00236612256f,
 -0.00235956255f, -0.00235292572f, -0.00234621251f, -0.00233942317f, -0.00233255769f, -0.00232561678f, -0.00231860066f, -0.00231150934f,
 -0.00230434351f, -0.00229710317f, -0.00228978903f, -0.00228240085f, -0.00227493932f, -0.00226740469f, -0.00225979742f, -0.0022521175f,
 -0.0022443654f, -0.00223654159f, -0.00222864607f, -0.00222067977f, -0.00221264246f, -0.0022045346f, -0.00219635665f, -0.00218810886f,
 -0.00217979169f, -0.00217140513f, -0.00216295011f, -0.00215442665f, -0.00214583497f, -0.00213717553f, -0.0021284488f, -0.00211965526f,
 -0.00211079489f, -0.00210186816f, -0.00209287554f, -0.0020838175f, -0.00207469403f, -0.00206550607f, -0.00205625338f, -0.00204693666f,
 -0.00203755638f, -0.00202811277f, -0.00201860606f, -0.00200903695f, -0.00199940545f, -0.00198971224f, -0.0019799578f, -0.00197014213f,
 -0.00196026592f, -0.00195032952f, -0.00194033328f, -0.00193027756f, -0.00192016282f, -0.0019099894f, -0.00189975766f, -0.00188946817f,
 -0.00187912118f, -0.00186871726f, -0.00185825664f, -0.0018477398f, -0.00183716719f, -0.00182653917f, -0.00181585609f, -0.00180511852f,
 -0.00179432682f, -0.00178348133f, -0.00177258265f, -0.00176163099f, -0.00175062683f, -0.00173957075f, -0.00172846299f, -0.00171730411f,
 -0.00170609436f, -0.00169483444f, -0.00168352458f, -0.00167216524f, -0.00166075677f, -0.00164929987f, -0.00163779478f, -0.00162624195f,
 -0.00161464198f, -0.00160299509f, -0.00159130176f, -0.00157956255f, -0.00156777783f, -0.00155594817f, -0.00154407381f, -0.00153215532f,
 -0.00152019307f, -0.00150818762f, -0.00149613945f, -0.0014840489f, -0.00147191645f, -0.00145974255f, -0.00144752767f, -0.00143527228f,
 -0.00142297684f, -0.00141064182f, -0.00139826769f, -0.00138585491f, -0.00137340382f, -0.00136091502f, -0.00134838896f, -0.00133582612f,
 -0.00132322684f, -0.00131059182f, -0.00129792129f, -0.00128521584f, -0.00127247593f, -0.00125970191f, -0.00124689448f, -0.00123405398f,
 -0.00122118089f, -0.00120827567f, -0.0011953389f, -0.00118237094f, -0.00116937223f, -0.00115634338f, -0.00114328472f, -0.00113019696f,
 -0.00111708033f, -0.00110393541f, -0.00109076279f, -0.00107756269f, -0.00106433581f, -0.00105108263f, -0.00103780348f, -0.00102449907f,
 -0.00101116963f, -0.000997815747f, -0.000984437997f, -0.00097103673f, -0.000957612472f, -0.000944165746f, -0.000930697017f, -0.000917206809f,
 -0.000903695531f, -0.000890163763f, -0.000876611914f, -0.000863040448f, -0.000849449949f, -0.000835840881f, -0.000822213711f, -0.000808568904f,
 -0.000794906984f, -0.000781228417f, -0.000767533726f, -0.000753823377f, -0.000740097836f, -0.000726357684f, -0.000712603272f, -0.00069883524f,
 -0.000685053936f, -0.000671260001f, -0.000657453784f, -0.000643635867f, -0.000629806658f, -0.000615966739f, -0.000602116575f, -0.000588256633f,
 -0.000574387377f, -0.00056050939f, -0.00054662308f, -0.000532728969f, -0.000518827525f, -0.000504919211f, -0.000491004612f, -0.000477084192f,
 -0.000463158358f, -0.000449227693f, -0.000435292604f, -0.000421353645f, -0.000407411309f, -0.000393466005f, -0.000379518315f, -0.000365568674f,
 -0.000351617578f, -0.000337665493f, -0.000323712971f, -0.00030976042f, -0.000295808364f, -0.000281857298f, -0.000267907686f, -0.000253960025f,
 -0.000240014808f, -0.000226072501f, -0.000212133586f, -0.000198198541f, -0.000184267876f, -0.000170342042f, -0.000156421549f, -0.000142506848f,
 -0.000128598433f, -0.000114696777f, -0.000100802376f, -8.69156866e-05f, -7.30371976e-05f, -5.91673852e-05f, -4.53067223e-05f, -3.14556855e-05f,
 -1.76147478e-05f, -3.7843854e-06f, 1.00349307e-05f, 2.38427274e-05f, 3.7638536e-05f, 5.14218809e-05f, 6.51922965e-05f, 7.8949306e-05f,
 9.26924549e-05f, 0.000106421263f, 0.000120135272f, 0.000133834008f, 0.000147517014f, 0.000161183838f, 0.000174833986f, 0.00018846702f,
 0.000202082476f, 0.000215679887f, 0.000229258789f, 0.000242818744f, 0.000256359286f, 0.000269879936f, 0.000283380301f, 0.000296859856f,
 0.000310318195f, 0.000323754852f, 0.00033716936f, 0.000350561284f, 0.000363930187f, 0.000377275632f, 0.000390597124f, 0.000403894257f,
 0.000417166593f, 0.000430413667f, 0.000443635043f, 0.000456830283f, 0.000469998951f, 0.00048314064f, 0.000496254885f, 0.000509341189f,
 0.000522399263f, 0.000535428524f, 0.000548428623f, 0.000561399153f, 0.000574339647f, 0.000587249699f, 0.000600128842f, 0.00061297667f,
 0.000625792774f, 0.000638576748f, 0.000651328126f, 0.000664046558f, 0.000676731579f, 0.000689382781f, 0.000701999757f, 0.0007145821f,
 0.000727129402f, 0.000739641197f, 0.000752117194f, 0.000764556869f, 0.000776959874f, 0.000789325801f, 0.0008016543f, 0.000813944906f,
 0.000826197211f, 0.000838410866f, 0.000850585406f, 0.000862720539f, 0.000874815858f, 0.000886870897f, 0.000898885366f, 0.00091085874f,
 0.000922790787f, 0.00093468104f, 0.000946529151f, 0.000958334771f, 0.000970097433f, 0.000981816789f, 0.000993492547f, 0.0010051243f,
 0.00101671158f, 0.00102825416f, 0.00103975157f, 0.00105120358f, 0.0010626096f, 0.00107396953f, 0.00108528277f, 0.00109654921f,
 0.00110776827f, 0.00111893972f, 0.0011300632f, 0.00114113826f, 0.00115216477f, 0.00116314227f, 0.00117407029f, 0.0011849486f,
 0.00119577697f, 0.00120655494f, 0.00121728214f, 0.00122795836f, 0.00123858312f, 0.00124915619f, 0.00125967723f, 0.00127014599f,
 0.00128056202f, 0.00129092508f, 0.0013012347f, 0.00131149089f, 0.00132169295f, 0.00133184087f, 0.0013419342f, 0.00135197258f,
 0.00136195589f, 0.00137188367f, 0.00138175569f, 0.0013915716f, 0.00140133116f, 0.00141103403f, 0.00142067997f, 0.00143026863f,
 0.00143979979f, 0.00144927308f, 0.00145868829f, 0.00146804517f, 0.00147734338f, 0.00148658257f, 0.00149576261f, 0.00150488305f,
 0.00151394389f, 0.00152294454f, 0.00153188501f, 0.00154076493f, 0.00154958409f, 0.00155834213f, 0.00156703882f, 0.00157567393f,
 0.00158424734f, 0.00159275858f, 0.00160120754f, 0.00160959386f, 0.00161791744f, 0.00162617792f, 0.00163437519f, 0.00164250901f,
 0.00165057892f, 0.00165858504f, 0.00166652689f, 0.00167440425f, 0.001682217f, 0.00168996491f, 0.00169764773f, 0.00170526525f,
 0.00171281735f, 0.00172030367f, 0.00172772398f, 0.00173507829f, 0.00174236624f, 0.00174958759f, 0.00175674225f, 0.00176383008f,
 0.00177085062f, 0.00177780399f, 0.00178468984f, 0.00179150805f, 0.0017982584f, 0.00180494064f, 0.00181155466f, 0.00181810034f,
 0.00182457757f, 0.00183098589f, 0.0018373254f, 0.00184359588f, 0.00184979709f, 0.00185592892f, 0.00186199113f, 0.00186798372f,
 0.00187390659f, 0.00187975925f, 0.00188554195f, 0.00189125421f, 0.00189689617f, 0.00190246745f, 0.0019079682f, 0.00191339792f,
 0.00191875675f, 0.00192404457f, 0.00192926102f, 0.00193440623f, 0.00193947996f, 0.00194448209f, 0.00194941252f, 0.00195427123f,
 0.00195905799f, 0.00196377258f, 0.00196841522f, 0.00197298545f, 0.00197748328f, 0.00198190892f, 0.00198626192f, 0.00199054228f,
 0.00199475f, 0.00199888484f, 0.0020029468f, 0.00200693589f, 0.00201085187f, 0.00201469474f, 0.00201846426f, 0.00202216068f,
 0.00202578376f, 0.0020293335f, 0.00203280966f, 0.00203621248f, 0.00203954149f, 0.00204279693f, 0.00204597879f, 0.00204908685f,
 0.0020521211f, 0.00205508131f, 0.00205796794f, 0.00206078053f, 0.00206351909f, 0.00206618384f, 0.00206877454f, 0.00207129121f,
 0.0020737336f, 0.00207610196f, 0.00207839627f, 0.00208061654f, 0.00208276254f, 0.00208483427f, 0.00208683196f, 0.00208875537f,
 0.00209060474f, 0.00209237984f, 0.00209408067f, 0.00209570723f, 0.00209725974f, 0.00209873798f, 0.00210014195f, 0.00210147188f,
 0.00210272777f, 0.00210390938f, 0.00210501673f, 0.00210605026f, 0.00210700952f, 0.00210789498f, 0.00210870616f, 0.00210944354f,
 0.00211010687f, 0.0021106964f, 0.00211121188f, 0.0021116538f, 0.00211202167f, 0.00211231597f, 0.00211253646f, 0.00211268337f,
 0.00211275695f, 0.00211275672f, 0.00211268314f, 0.00211253623f, 0.00211231597f, 0.00211202237f, 0.00211165566f, 0.00211121584f,
 0.00211070292f, 0.00211011712f, 0.0021094582f, 0.00210872688f, 0.00210792245f, 0.00210704561f, 0.00210609636f, 0.00210507447f,
 0.0021039804f, 0.00210281392f, 0.00210157526f, 0.00210026465f, 0.00209888211f, 0.00209742785f, 0.00209590164f, 0.00209430396f,
 0.00209263479f, 0.00209089415f, 0.0020890825f, 0.00208719936f, 0.00208524545f, 0.00208322052f, 0.00208112504f, 0.00207895879f,
 0.00207672198f, 0.00207441486f, 0.00207203766f, 0.00206959015f, 0.00206707278f, 0.0020644858f, 0.00206182897f, 0.00205910276f,
 0.00205630716f, 0.00205344241f, 0.00205050851f, 0.00204750593f, 0.00204443466f, 0.00204129471f, 0.00203808653f, 0.00203480991f,
 0.00203146553f, 0.00202805293f, 0.00202457304f, 0.0020210254f, 0.00201741047f, 0.00201372826f, 0.00200997922f, 0.00200616359f,
 0.00200228114f, 0.00199833233f, 0.00199431716f, 0.00199023611f, 0.00198608916f, 0.00198187679f, 0.00197759876f, 0.00197325577f,
 0.00196884759f, 0.00196437468f, 0.00195983704f, 0.00195523514f, 0.0019505691f, 0.00194583903f, 0.00194104516f, 0.00193618785f,
 0.00193126732f, 0.00192628358f, 0.0019212371f, 0.00191612798f, 0.00191095634f, 0.00190572266f, 0.00190042704f, 0.00189506973f,
 0.00188965106f, 0.00188417104f, 0.00187863014f, 0.00187302846f, 0.00186736637f, 0.00186164398f, 0.00185586163f, 0.00185001956f,
 0.001844118f, 0.00183815719f, 0.00183213735f, 0.00182605896f, 0.00181992201f, 0.00181372685f, 0.00180747383f, 0.00180116319f,
 0.00179479516f, 0.00178836996f, 0.00178188784f, 0.00177534926f, 0.00176875433f, 0.00176210341f, 0.00175539672f, 0.0017486345f,
 0.0017418171f, 0.00173494488f, 0.00172801805f, 0.00172103685f, 0.00171400153f, 0.00170691253f, 0.0016997701f, 0.00169257447f,
 0.00168532599f, 0.00167802488f, 0.00167067151f, 0.00166326622f, 0.00165580923f, 0.00164830079f, 0.00164074136f, 0.00163313106f,
 0.00162547035f, 0.00161775958f, 0.00160999887f, 0.00160218868f, 0.00159432925f, 0.00158642093f, 0.00157846394f, 0.00157045876f,
 0.00156240573f, 0.00155430497f, 0.00154615683f, 0.00153796177f, 0.00152972015f, 0.00152143207f, 0.00151309802f, 0.00150471833f,
 0.00149629323f, 0.0014878232f, 0.00147930847f, 0.00147074927f, 0.00146214617f, 0.00145349943f, 0.00144480926f, 0.00143607613f,
 0.00142730027f, 0.00141848216f, 0.00140962203f, 0.00140072033f, 0.00139177719f, 0.0013827933f, 0.00137376867f, 0.00136470387f,
 0.00135559915f, 0.00134645484f, 0.00133727142f, 0.00132804899f, 0.00131878827f, 0.00130948925f, 0.00130015251f, 0.0012907784f,
 0.00128136715f, 0.00127191923f, 0.00126243487f, 0.00125291466f, 0.00124335871f, 0.0012337676f, 0.00122414157f, 0.00121448096f,
 0.00120478612f, 0.00119505753f, 0.00118529552f, 0.00117550045f, 0.00116567267f, 0.00115581253f, 0.00114592048f, 0.00113599678f,
 0.00112604187f, 0.00111605623f, 0.00110603997f, 0.00109599368f, 0.00108591758f, 0.00107581227f, 0.00106567796f, 0.00105551502f,
 0.00104532379f, 0.00103510485f, 0.00102485844f, 0.00101458491f, 0.00100428471f, 0.000993958092f, 0.000983605627f, 0.000973227608f,
 0.000962824444f, 0.000952396484f, 0.000941944076f, 0.000931467686f, 0.000920967665f, 0.00091044436f, 0.000899898238f, 0.000889329647f,
 0.000878738938f, 0.000868126517f, 0.000857492851f, 0.000846838229f, 0.000836163061f, 0.000825467694f, 0.000814752653f, 0.000804018229f,
 0.000793264771f, 0.000782492803f, 0.000771702616f, 0.00076089456f, 0.000750069157f, 0.000739226758f, 0.000728367653f, 0.000717492367f,
 0.000706601189f, 0.000695694587f, 0.000684772967f, 0.000673836621f, 0.000662886014f, 0.000651921553f, 0.000640943588f, 0.000629952527f,
 0.000618948718f, 0.000607932685f, 0.00059690472f, 0.000585865229f, 0.000574814621f, 0.000563753245f, 0.000552681566f, 0.000541599933f,
 0.000530508813f, 0.000519408495f, 0.000508299447f, 0.000497182016f, 0.000486056582f, 0.00047492361f, 0.000463783479f, 0.000452636537f,
 0.000441483222f, 0.000430323882f, 0.000419158954f, 0.000407988817f, 0.000396813877f, 0.000385634485f, 0.000374451076f, 0.000363264029f,
 0.000352073752f, 0.000340880622f, 0.000329685019f, 0.000318487349f, 0.000307288021f, 0.000296087383f, 0.000284885871f, 0.000273683865f,
 0.000262481713f, 0.000251279882f, 0.000240078691f, 0.000228878576f, 0.000217679903f, 0.000206483062f, 0.000195288463f, 0.000184096469f,
 0.000172907472f, 0.000161721866f, 0.000150540029f, 0.000139362368f, 0.000128189247f, 0.000117021067f, 0.000105858198f, 9.4701034e-05f,
 8.35499595e-05f, 7.24053534e-05f, 6.12676013e-05f, 5.01370851e-05f, 3.90141831e-05f, 2.78992793e-05f, 1.67927556e-05f, 5.69499025e-06f,
 -5.39363782e-06f, -1.64727498e-05f, -2.75419661e-05f, -3.86009124e-05f, -4.96492103e-05f, -6.06864814e-05f, -7.17123548e-05f, -8.27264521e-05f,
 -9.37284058e-05f, -0.000104717838f, -0.000115694376f, -0.000126657644f, -0.000137607276f, -0.000148542909f, -0.000159464165f, -0.00017037068f,
 -0.00018126209f, -0.000192138003f, -0.000202998082f, -0.000213841966f, -0.00022466926f, -0.000235479631f, -0.000246272684f, -0.000257048086f,
 -0.000267805473f, -0.000278544496f, -0.000289264746f, -0.000299965934f, -0.000310647651f, -0.000321309548f, -0.000331951305f, -0.000342572544f,
 -0.000353172887f, -0.000363752042f, -0.000374309602f, -0.000384845247f, -0.000395358598f, -0.000405849365f, -0.00041631714f, -0.000426761631f,
 -0.000437182462f, -0.000447579281f, -0.00045795177f, -0.000468299579f, -0.000478622358f, -0.000488919788f, -0.000499191519f, -0.000509437232f,
 -0.000519656576f, -0.000529849203f, -0.000540014822f, -0.000550153025f, -0.000560263579f, -0.000570346077f, -0.000580400229f, -0.000590425741f,
 -0.000600422209f, -0.000610389397f, -0.0006203269f, -0.000630234426f, -0.000640111684f, -0.000649958325f, -0.000659774058f, -0.000669558474f,
 -0.000679311401f, -0.000689032488f, -0.000698721327f, -0.000708377687f, -0.000718001276f, -0.000727591745f, -0.000737148745f, -0.0007466721f,
 -0.000756161404f, -0.000765616365f, -0.000775036751f, -0.000784422155f, -0.0007937724f, -0.000803087081f, -0.000812365965f, -0.000821608759f,
 -0.000830815115f, -0.000839984801f, -0.000849117525f, -0.000858212996f, -0.000867270865f, -0.000876290957f, -0.000885272922f, -0.00089421653f,
 -0.000903121429f, -0.000911987328f, -0.000920814055f, -0.000929601316f, -0.000938348763f, -0.000947056164f, -0.000955723226f, -0.000964349718f,
 -0.000972935406f, -0.000981479883f, -0.000989983091f, -0.000998444622f, -0.00100686424f, -0.00101524172f, -0.00102357683f, -0.00103186921f,
 -0.00104011875f, -0.00104832498f, -0.0010564879f, -0.00106460718f, -0.00107268244f, -0.00108071358f, -0.00108870037f, -0.00109664246f,
 -0.00110453973f, -0.00111239194f, -0.00112019863f, -0.00112795981f, -0.00113567524f, -0.00114334456f, -0.00115096767f, -0.00115854421f,
 -0.00116607407f, -0.0011735569f, -0.00118099269f, -0.00118838099f, -0.00119572168f, -0.00120301463f, -0.00121025951f, -0.00121745607f,
 -0.00122460432f, -0.00123170379f, -0.00123875437f, -0.00124575594f, -0.00125270826f, -0.0012596111f, -0.00126646424f, -0.00127326744f,
 -0.00128002069f, -0.00128672365f, -0.00129337609f, -0.001299978f, -0.00130652904f, -0.00131302897f, -0.0013194778f, -0.00132587529f,
 -0.0013322212f, -0.00133851531f, -0.00134475762f, -0.00135094777f, -0.00135708565f, -0.00136317115f, -0.00136920402f, -0.00137518428f,
 -0.00138111145f, -0.00138698565f, -0.00139280653f, -0.0013985741f, -0.00140428799f, -0.00140994834f, -0.00141555467f, -0.0014211071f,
 -0.00142660527f, -0.00143204932f, -0.00143743877f, -0.00144277373f, -0.00144805387f, -0.00145327917f, -0.00145844952f, -0.00146356469f,
 -0.00146862469f, -0.00147362927f, -0.00147857831f, -0.0014834716f, -0.00148830924f, -0.001493091f, -0.00149781676f, -0.0015024863f,
 -0.00150709972f, -0.00151165668f, -0.0015161573f, -0.00152060122f, -0.00152498856f, -0.0015293191f, -0.0015335927f, -0.00153780938f,
 -0.0015419689f, -0.00154607126f, -0.00155011634f, -0.00155410415f, -0.00155803445f, -0.00156190712f, -0.00156572228f, -0.0015694797f,
 -0.00157317927f, -0.00157682097f, -0.00158040482f, -0.00158393057f, -0.00158739823f, -0.00159080769f, -0.00159415894f, -0.00159745186f,
 -0.00160068634f, -0.0016038625f, -0.00160698011f, -0.00161003915f, -0.00161303964f, -0.00161598134f, -0.00161886436f, -0.00162168872f,
 -0.00162445416f, -0.00162716082f, -0.00162980845f, -0.00163239718f, -0.001634927f, -0.00163739768f, -0.00163980934f, -0.00164216186f,
 -0.00164445536f, -0.0016466896f, -0.00164886471f, -0.00165098056f, -0.00165303715f, -0.0016550346f, -0.00165697269f, -0.00165885151f,
 -0.00166067109f, -0.00166243128f, -0.00166413211f, -0.00166577369f, -0.00166735577f, -0.00166887871f, -0.00167034217f, -0.00167174626f,
 -0.00167309109f, -0.00167437654f, -0.00167560263f, -0.00167676935f, -0.0016778768f, -0.00167892501f, -0.00167991384f, -0.00168084342f,
 -0.00168171362f, -0.00168252469f, -0.00168327661f, -0.00168396928f, -0.0016846027f, -0.00168517709f, -0.00168569235f, -0.00168614846f,
 -0.00168654567f, -0.00168688374f, -0.00168716291f, -0.00168738316f, -0.00168754451f, -0.00168764708f, -0.00168769073f, -0.00168767571f,
 -0.00168760202f, -0.00168746978f, -0.00168727885f, -0.00168702938f, -0.00168672146f, -0.00168635522f, -0.00168593053f, -0.00168544764f,
 -0.00168490643f, -0.00168430712f, -0.00168364984f, -0.00168293447f, -0.00168216124f, -0.00168133003f, -0.0016804412f, -0.00167949463f,
 -0.00167849043f, -0.00167742872f, -0.00167630962f, -0.00167513313f, -0.00167389936f, -0.00167260843f, -0.00167126046f, -0.00166985556f,
 -0.00166839373f, -0.00166687509f, -0.00166529987f, -0.00166366796f, -0.00166197971f, -0.00166023499f, -0.00165843405f, -0.00165657699f,
 -0.00165466394f, -0.00165269501f, -0.00165067019f, -0.00164858974f, -0.00164645375f, -0.00164426223f, -0.00164201553f, -0.00163971353f,
 -0.00163735659f, -0.0016349447f, -0.00163247797f, -0.00162995665f, -0.00162738073f, -0.00162475044f, -0.0016220659f, -0.00161932723f,
 -0.00161653466f, -0.00161368819f, -0.00161078805f, -0.00160783436f, -0.00160482735f, -0.00160176714f, -0.00159865373f, -0.00159548747f,
 -0.00159226847f, -0.00158899685f, -0.00158567273f, -0.00158229633f, -0.00157886778f, -0.0015753872f, -0.00157185493f, -0.00156827108f,
 -0.00156463566f, -0.00156094902f, -0.00155721116f, -0.00155342242f, -0.00154958293f, -0.00154569279f, -0.00154175237f, -0.00153776165f,
 -0.00153372076f, -0.00152963016f, -0.00152548985f, -0.00152130006f, -0.00151706091f, -0.00151277264f, -0.00150843547f, -0.00150404964f,
 -0.00149961526f, -0.00149513246f, -0.00149060157f, -0.00148602272f, -0.00148139615f, -0.00147672207f, -0.00147200061f, -0.00146723213f,
 -0.00146241661f, -0.0014575544f, -0.00145264575f, -0.00144769077f, -0.00144268968f, -0.00143764284f, -0.00143255026f, -0.00142741227f,
 -0.00142222899f, -0.00141700078f, -0.00141172786f, -0.00140641036f, -0.0014010485f, -0.00139564252f, -0.00139019277f, -0.00138469925f,
 -0.00137916242f, -0.00137358229f, -0.00136795931f, -0.00136229361f, -0.0013565853f, -0.00135083485f, -0.00134504237f, -0.0013392081f,
 -0.00133333227f, -0.00132741523f, -0.00132145698f, -0.0013154581f, -0.00130941859f, -0.00130333868f, -0.00129721873f, -0.00129105896f,
 -0.00128485973f, -0.00127862103f, -0.00127234333f, -0.00126602675f, -0.00125967164f, -0.00125327823f, -0.00124684663f, -0.00124037743f,
 -0.00123387051f, -0.00122732646f, -0.00122074527f, -0.00121412741f, -0.00120747299f, -0.00120078237f, -0.00119405577f, -0.00118729344f,
 -0.00118049572f, -0.00117366272f, -0.00116679491f, -0.00115989253f, -0.00115295569f, -0.00114598474f, -0.00113898003f, -0.0011319418f,
 -0.00112487026f, -0.00111776567f, -0.00111062848f, -0.00110345869f, -0.00109625689f, -0.00108902308f, -0.00108175783f, -0.00107446115f,
 -0.00106713339f, -0.00105977489f, -0.00105238601f, -0.00104496686f, -0.0010375178f, -0.00103003916f, -0.00102253107f, -0.00101499399f,
 -0.00100742816f, -0.000999833923f, -0.000992211397f, -0.000984561048f, -0.000976883108f, -0.00096917781f, -0.000961445505f, -0.000953686482f,
 -0.000945901033f, -0.000938089448f, -0.000930252019f, -0.000922389037f, -0.000914500793f, -0.000906587637f, -0.000898649741f, -0.000890687574f,
 -0.000882701308f, -0.000874691294f, -0.000866657821f, -0.000858601183f, -0.000850521668f, -0.000842419628f, -0.000834295293f, -0.000826149073f,
 -0.000817981141f, -0.000809791905f, -0.000801581598f, -0.000793350569f, -0.00078509911f, -0.00077682751f, -0.000768536062f, -0.000760225113f,
 -0.000751895015f, -0.000743545941f, -0.000735178299f, -0.000726792379f, -0.000718388474f, -0.000709966931f, -0.000701527984f, -0.000693072041f,
 -0.000684599276f, -0.000676110154f, -0.000667604851f, -0.000659083773f, -0.000650547212f, -0.000641995459f, -0.000633428805f, -0.00062484754f,
 -0.000616252073f, -0.000607642694f, -0.000599019637f, -0.00059038325f, -0.000581733941f, -0.000573071884f, -0.000564397429f, -0.000555710925f,
 -0.000547012663f, -0.000538302993f, -0.000529582147f, -0.000520850532f, -0.000512108381f, -0.000503356103f, -0.000494593929f, -0.00048582218f,
 -0.000477041205f, -0.000468251295f, -0.000459452771f, -0.000450645952f, -0.000441831158f, -0.000433008681f, -0.000424178841f, -0.000415341958f,
 -0.000406498351f, -0.000397648342f, -0.000388792221f, -0.000379930338f, -0.000371062953f, -0.000362190418f, -0.000353313051f, -0.000344431144f,
 -0.000335545017f, -0.00032665499f, -0.000317761383f, -0.000308864488f, -0.000299964624f, -0.000291062112f, -0.000282157271f, -0.000273250393f,
 -0.000264341797f, -0.000255431805f, -0.000246520736f, -0.000237608881f, -0.000228696561f, -0.00021978408f, -0.000210871745f, -0.000201959891f,
 -0.000193048807f, -0.0001841388f, -0.000175230205f, -0.000166323312f, -0.000157418428f, -0.000148515857f, -0.000139615935f, -0.000130718938f,
 -0.000121825185f, -0.000112934998f, -0.00010404866f, -9.51664988e-05f, -8.62888046e-05f, -7.74158907e-05f, -6.85480554e-05f, -5.96856116e-05f,
 -5.08288613e-05f, -4.19781063e-05f, -3.31336487e-05f, -2.42957958e-05f, -1.5464846e-05f, -6.64110212e-06f, 2.17513343e-06f, 1.0983561e-05f,
 1.97838799e-05f, 2.85757906e-05f, 3.73589937e-05f, 4.61331911e-05f, 5.48980825e-05f, 6.36533732e-05f, 7.23987687e-05f, 8.11339705e-05f,
 8.98586804e-05f, 9.85726001e-05f, 0.000107275446f, 0.000115966919f, 0.000124646729f, 0.000133314577f, 0.000141970173f, 0.000150613239f,
 0.000159243456f, 0.000167860562f, 0.000176464266f, 0.000185054261f, 0.000193630272f, 0.000202192008f, 0.000210739192f, 0.000219271533f,
 0.00022778874f, 0.000236290536f, 0.000244776631f, 0.000253246777f, 0.000261700654f, 0.000270137971f, 0.000278558495f, 0.000286961906f,
 0.000295347971f, 0.000303716341f, 0.000312066812f, 0.000320399093f, 0.000328712864f, 0.000337007892f, 0.000345283916f, 0.000353540614f,
 0.000361777784f, 0.000369995076f, 0.000378192286f, 0.000386369124f, 0.000394525297f, 0.000402660604f, 0.000410774694f, 0.000418867392f,
 0.00042693835f, 0.000434987363f, 0.000443014171f, 0.000451018452f, 0.000459000032f, 0.000466958591f, 0.000474893895f, 0.000482805684f,
 0.000490693667f, 0.000498557696f, 0.000506397395f, 0.000514212588f, 0.000522002985f, 0.000529768411f, 0.000537508458f, 0.000545223069f,
 0.000552911835f, 0.000560574641f, 0.000568211195f, 0.000575821206f, 0.000583404442f, 0.000590960728f, 0.000598489773f, 0.000605991401f,
 0.000613465265f, 0.000620911189f, 0.000628328999f, 0.000635718345f, 0.000643079053f, 0.000650410948f, 0.000657713681f, 0.000664987077f,
 0.000672230963f, 0.000679444987f, 0.000686629093f, 0.000693782931f, 0.000700906268f, 0.000707998988f, 0.000715060742f, 0.000722091412f,
 0.000729090767f, 0.000736058515f, 0.00074299454f, 0.000749898609f, 0.000756770431f, 0.000763609889f, 0.000770416693f, 0.000777190668f,
 0.000783931639f, 0.000790639373f, 0.000797313696f, 0.000803954317f, 0.00081056112f, 0.00081713387f, 0.000823672395f, 0.000830176461f,
 0.000836645893f, 0.000843080459f, 0.000849480042f, 0.000855844351f, 0.00086217327f, 0.000868466625f, 0.000874724181f, 0.000880945765f,
 0.000887131144f, 0.000893280201f, 0.000899392762f, 0.000905468594f, 0.000911507523f, 0.000917509431f, 0.000923474028f, 0.000929401256f,
 0.000935290882f, 0.000941142789f, 0.000946956745f, 0.000952732575f, 0.000958470162f, 0.000964169274f, 0.000969829794f, 0.000975451607f,
 0.000981034478f, 0.000986578176f, 0.000992082758f, 0.000997547875f, 0.00100297341f, 0.00100835925f, 0.00101370527f, 0.00101901125f,
 0.00102427707f, 0.0010295026f, 0.00103468762f, 0.00103983202f, 0.00104493578f, 0.00104999857f, 0.00105502037f, 0.00106000097f,
 0.00106494024f, 0.00106983806f, 0.00107469433f, 0.00107950892f, 0.00108428171f, 0.00108901248f, 0.00109370123f, 0.00109834759f,
 0.0011029517f, 0.00110751344f, 0.00111203245f, 0.00111650885f, 0.0011209423f, 0.0011253329f, 0.00112968043f, 0.00113398477f,
 0.0011382458f, 0.00114246353f, 0.0011466376f, 0.00115076825f, 0.00115485501f, 0.00115889811f, 0.00116289721f, 0.00116685219f,
 0.00117076316f, 0.0011746299f, 0.00117845228f, 0.00118223031f, 0.00118596386f, 0.00118965283f, 0.00119329698f, 0.00119689654f,
 0.00120045117f, 0.00120396086f, 0.00120742549f, 0.00121084508f, 0.00121421949f, 0.00121754862f, 0.00122083235f, 0.00122407079f,
 0.00122726371f, 0.00123041112f, 0.00123351277f, 0.0012365689f, 0.00123957917f, 0.00124254369f, 0.00124546234f, 0.001248335f,
 0.00125116168f, 0.00125394226f, 0.00125667674f, 0.00125936512f, 0.00126200716f, 0.00126460299f, 0.00126715261f, 0.00126965577f,
 0.00127211248f, 0.00127452274f, 0.00127688656f, 0.00127920369f, 0.00128147437f, 0.00128369848f, 0.0012858758f, 0.00128800655f,
 0.0012900905f, 0.00129212765f, 0.00129411812f, 0.00129606167f, 0.00129795854f, 0.00129980838f, 0.00130161142f, 0.00130336755f,
 0.00130507676f, 0.00130673905f, 0.00130835432f, 0.00130992266f, 0.00131144398f, 0.00131291838f, 0.00131434575f, 0.00131572608f,
 0.00131705939f, 0.00131834566f, 0.0013195849f, 0.00132077711f, 0.00132192229f, 0.00132302055f, 0.00132407167f, 0.00132507575f,
 0.00132603291f, 0.00132694305f, 0.00132780615f, 0.00132862234f, 0.0013293915f, 0.00133011374f, 0.00133078895f, 0.00133141736f,
 0.00133199885f, 0.00133253343f, 0.00133302121f, 0.00133346207f, 0.00133385626f, 0.00133420364f, 0.00133450422f, 0.00133475813f,
 0.00133496535f, 0.00133512588f, 0.00133523985f, 0.00133530726f, 0.00133532821f, 0.0013353026f, 0.00133523054f, 0.00133511203f,
 0.00133494718f, 0.00133473601f, 0.00133447861f, 0.001334175f, 0.00133382529f, 0.00133342936f, 0.00133298745f, 0.00133249955f,
 0.00133196567f, 0.00133138592f, 0.00133076042f, 0.00133008906f, 0.00132937205f, 0.00132860953f, 0.00132780126f, 0.00132694771f,
 0.00132604863f, 0.00132510415f, 0.00132411451f, 0.00132307957f, 0.00132199959f, 0.00132087455f, 0.00131970458f, 0.00131848978f,
 0.00131723005f, 0.00131592562f, 0.00131457672f, 0.00131318311f, 0.00131174515f, 0.00131026271f, 0.00130873616f, 0.00130716537f,
 0.00130555045f, 0.00130389153f, 0.00130218873f, 0.00130044227f, 0.00129865191f, 0.00129681814f, 0.00129494083f, 0.00129302009f,
 0.00129105616f, 0.00128904893f, 0.00128699874f, 0.00128490559f, 0.0012827696f, 0.00128059089f, 0.00127836957f, 0.00127610576f,
 0.00127379957f, 0.00127145101f, 0.00126906042f, 0.00126662781f, 0.00126415328f, 0.00126163708f, 0.00125907909f, 0.00125647965f,
 0.00125383877f, 0.00125115667f, 0.00124843349f, 0.00124566921f, 0.00124286406f, 0.00124001829f, 0.00123713177f, 0.00123420497f,
 0.00123123766f, 0.00122823031f, 0.0012251829f, 0.00122209557f, 0.00121896842f, 0.00121580181f, 0.00121259561f, 0.00120935019f,
 0.00120606553f, 0.00120274187f, 0.00119937933f, 0.00119597802f, 0.0011925383f, 0.00118906004f, 0.0011855436f, 0.00118198909f,
 0.00117839652f, 0.00117476634f, 0.00117109844f, 0.00116739306f, 0.00116365042f, 0.00115987076f, 0.00115605397f, 0.00115220051f,
 0.00114831037f, 0.0011443838f, 0.00114042091f, 0.00113642192f, 0.00113238697f, 0.00112831627f, 0.00112420996f, 0.00112006825f,
 0.00111589127f, 0.00111167924f, 0.0011074323f, 0.00110315066f, 0.00109883444f, 0.00109448389f, 0.00109009922f, 0.00108568056f,
 0.00108122802f, 0.00107674196f, 0.00107222248f, 0.00106766971f, 0.001063084f, 0.00105846534f, 0.00105381396f, 0.00104913022f,
 0.00104441412f, 0.00103966589f, 0.00103488588f, 0.00103007408f, 0.00102523086f, 0.0010203562f, 0.00101545057f, 0.00101051398f,
 0.00100554666f, 0.00100054883f, 0.000995520735f, 0.000990462606f, 0.000985374441f, 0.000980256591f, 0.000975109346f, 0.000969932764f,
 0.000964727078f, 0.00095949258f, 0.000954229385f, 0.000948937784f, 0.000943617895f, 0.000938270008f, 0.000932894298f, 0.000927490939f,
 0.000922060222f, 0.000916602323f, 0.000911117473f, 0.000905605906f, 0.000900067796f, 0.000894503319f, 0.000888912822f, 0.000883296365f,
 0.000877654296f, 0.000871986849f, 0.000866294082f, 0.000860576401f, 0.000854833925f, 0.000849066884f, 0.000843275513f, 0.000837460044f,
 0.00083162071f, 0.000825757743f, 0.000819871319f, 0.000813961669f, 0.000808029086f, 0.000802073744f, 0.000796095876f, 0.000790095772f,
 0.000784073549f, 0.000778029556f, 0.000771963911f, 0.000765876903f, 0.000759768824f, 0.00075363979f, 0.000747490092f, 0.000741319964f,
 0.000735129579f, 0.000728919287f, 0.000722689263f, 0.000716439739f, 0.000710170949f, 0.000703883125f, 0.000697576499f, 0.000691251305f,
 0.000684907835f, 0.000678546261f, 0.000672166876f, 0.000665769854f, 0.000659355486f, 0.000652924005f, 0.000646475644f, 0.000640010636f,
 0.000633529213f, 0.000627031666f, 0.000620518171f, 0.000613988959f, 0.000607444381f, 0.000600884552f, 0.000594309822f, 0.000587720366f,
 0.000581116474f, 0.000574498321f, 0.000567866198f, 0.000561220339f, 0.000554560975f, 0.000547888398f, 0.00054120284f, 0.000534504477f,
 0.000527793658f, 0.000521070557f, 0.000514335406f, 0.000507588498f, 0.000500830065f, 0.000494060398f, 0.000487279642f, 0.000480488117f,
 0.000473686028f, 0.000466873695f, 0.000460051262f, 0.00045321908f, 0.000446377322f, 0.000439526251f, 0.000432666129f, 0.000425797189f,
 0.000418919721f, 0.0004120339f, 0.000405140046f, 0.000398238335f, 0.000391329086f, 0.000384412502f, 0.000377488846f, 0.000370558351f,
 0.000363621308f, 0.00035667792f, 0.00034972842f, 0.000342773128f, 0.000335812219f, 0.000328845985f, 0.000321874657f, 0.000314898469f,
 0.000307917711f, 0.000300932588f, 0.000293943391f, 0.000286950322f, 0.000279953645f, 0.000272953592f, 0.000265950453f, 0.000258944463f,
 0.000251935824f, 0.000244924828f, 0.000237911721f, 0.000230896738f, 0.00022388011f, 0.000216862114f, 0.000209842969f, 0.000202822936f,
 0.000195802262f, 0.000188781181f, 0.00018175994f, 0.000174738801f, 0.000167717983f, 0.00016069776f, 0.000153678353f, 0.000146660022f,
 0.000139642987f, 0.000132627523f, 0.000125613849f, 0.00011860222f, 0.000111592868f, 0.000104586055f, 9.75820003e-05f, 9.05809648e-05f,
 8.35831815e-05f, 7.65888835e-05f, 6.95983326e-05f, 6.26117471e-05f, 5.5629378e-05f, 4.86514655e-05f, 4.16782459e-05f, 3.47099594e-05f,
 2.77468462e-05f, 2.07891408e-05f, 1.38370851e-05f, 6.89091303e-06f, -4.91370749e-08f, -6.98282838e-06f, -1.39099257e-05f, -2.08301917e-05f,
 -2.77433937e-05f, -3.46492961e-05f, -4.15476607e-05f, -4.84382617e-05f, -5.53208592e-05f, -6.21952204e-05f, -6.90611196e-05f, -7.59183167e-05f,
 -8.27665863e-05f, -8.96056954e-05f, -9.64354113e-05f, -0.000103255516f, -0.000110065761f, -0.000116865936f, -0.000123655802f, -0.000130435132f,
 -0.000137203708f, -0.000143961282f, -0.000150707667f, -0.000157442599f, -0.000164165875f, -0.000170877262f, -0.000177576541f, -0.000184263496f,
 -0.000190937892f, -0.000197599511f, -0.000204248136f, -0.000210883547f, -0.000217505512f, -0.000224113843f, -0.00023070829f, -0.000237288652f,
 -0.000243854709f, -0.000250406243f, -0.000256943022f, -0.00026346487f, -0.000269971555f, -0.000276462873f, -0.000282938563f, -0.000289398478f,
 -0.000295842387f, -0.000302270055f, -0.000308681279f, -0.000315075886f, -0.000321453641f, -0.000327814341f, -0.000334157754f, -0.000340483733f,
 -0.000346792018f, -0.000353082432f, -0.000359354774f, -0.000365608808f, -0.000371844391f, -0.00037806129f, -0.000384259271f, -0.000390438217f,
 -0.000396597839f, -0.00040273802f, -0.000408858497f, -0.000414959126f, -0.000421039673f, -0.000427099993f, -0.000433139823f, -0.000439159048f,
 -0.000445157406f, -0.000451134751f, -0.000457090908f, -0.000463025644f, -0.000468938786f, -0.000474830158f, -0.000480699586f, -0.000486546836f,
 -0.000492371793f, -0.000498174224f, -0.000503953954f, -0.000509710808f, -0.000515444612f, -0.000521155191f, -0.00052684237f, -0.000532505976f,
 -0.000538145774f, -0.000543761649f, -0.000549353426f, -0.000554920931f, -0.00056046393f, -0.000565982307f, -0.000571475946f, -0.000576944556f,
 -0.000582388078f, -0.00058780628f, -0.000593199045f, -0.000598566141f, -0.000603907451f, -0.0006092228f, -0.000614512013f, -0.000619774975f,
 -0.000625011511f, -0.000630221446f, -0.000635404605f, -0.000640560873f, -0.000645690074f, -0.000650792033f, -0.000655866635f, -0.000660913705f,
 -0.000665933127f, -0.000670924666f, -0.000675888266f, -0.000680823752f, -0.000685731007f, -0.000690609799f, -0.000695460069f, -0.000700281584f,
 -0.000705074286f, -0.000709838059f, -0.00071457267f, -0.000719278003f, -0.000723953941f, -0.000728600367f, -0.000733217166f, -0.000737804105f,
 -0.000742361124f, -0.000746888109f, -0.000751384883f, -0.000755851332f, -0.000760287279f, -0.000764692726f, -0.000769067439f, -0.000773411302f,
 -0.000777724257f, -0.000782006129f, -0.000786256802f, -0.000790476159f, -0.000794664084f, -0.00079882046f, -0.000802945171f, -0.000807038101f,
 -0.000811099133f, -0.000815128209f, -0.000819125096f, -0.000823089795f, -0.000827022188f, -0.000830922101f, -0.000834789476f, -0.000838624255f,
 -0.000842426205f, -0.000846195326f, -0.000849931501f, -0.000853634614f, -0.000857304549f, -0.000860941247f, -0.000864544592f, -0.000868114468f,
 -0.000871650816f, -0.000875153579f, -0.000878622581f, -0.000882057764f, -0.000885459071f, -0.000888826326f, -0.000892159587f, -0.000895458681f,
 -0.000898723491f, -0.000901954016f, -0.000905150082f, -0.000908311747f, -0.000911438779f, -0.000914531178f, -0.000917588884f, -0.000920611783f,
 -0.000923599873f, -0.000926552981f, -0.000929471105f, -0.000932354131f, -0.000935201999f, -0.000938014709f, -0.000940792088f, -0.000943534134f,
 -0.000946240791f, -0.000948911998f, -0.0009515477f, -0.000954147778f, -0.000956712232f, -0.000959240948f, -0.000961733982f, -0.00096419116f,
 -0.000966612482f, -0.000968997949f, -0.000971347385f, -0.000973660848f, -0.000975938223f, -0.000978179509f, -0.000980384648f, -0.000982553698f,
 -0.000984686427f, -0.000986782834f, -0.000988843036f, -0.0009908668f, -0.000992854242f, -0.000994805247f, -0.000996719697f, -0.000998597825f,
 -0.00100043928f, -0.0010022443f, -0.00100401265f, -0.00100574445f, -0.00100743957f, -0.00100909802f, -0.00101071992f, -0.00101230503f,
 -0.00101385335f, -0.00101536501f, -0.00101683987f, -0.00101827795f, -0.00101967924f, -0.00102104363f, -0.00102237135f, -0.00102366216f,
 -0.00102491607f, -0.00102613319f, -0.00102731341f, -0.00102845673f, -0.00102956325f, -0.00103063288f, -0.00103166548f, -0.00103266141f,
 -0.00103362033f, -0.00103454234f, -0.00103542756f, -0.00103627576f, -0.00103708718f, -0.00103786169f, -0.00103859941f, -0.00103930023f,
 -0.00103996415f, -0.00104059128f, -0.00104118162f, -0.00104173517f, -0.00104225182f, -0.0010427318f, -0.001043175f, -0.0010435814f,
 -0.00104395114f, -0.0010442842f, -0.00104458048f, -0.0010448402f, -0.00104506325f, -0.00104524975f, -0.00104539969f, -0.00104551297f,
 -0.0010455898f, -0.0010456302f, -0.00104563416f, -0.00104560168f, -0.00104553276f, -0.00104542752f, -0.00104528596f, -0.00104510819f,
 -0.00104489422f, -0.00104464393f, -0.00104435754f, -0.00104403519f, -0.00104367663f, -0.0010432821f, -0.0010428516f, -0.00104238524f,
 -0.00104188302f, -0.00104134495f, -0.00104077114f, -0.00104016159f, -0.00103951641f, -0.00103883562f, -0.00103811931f, -0.00103736762f,
 -0.00103658042f, -0.00103575783f, -0.00103489996f, -0.00103400683f, -0.00103307853f, -0.00103211519f, -0.00103111682f, -0.0010300834f,
 -0.00102901517f, -0.00102791202f, -0.00102677417f, -0.00102560152f, -0.00102439441f, -0.00102315261f, -0.00102187647f, -0.00102056586f,
 -0.00101922103f, -0.00101784186f, -0.00101642869f, -0.0010149813f, -0.00101350003f, -0.00101198477f, -0.00101043575f, -0.00100885297f,
 -0.00100723654f, -0.00100558659f, -0.0010039031f, -0.00100218621f, -0.00100043614f, -0.000998652773f, -0.000996836461f, -0.000994986971f,
 -0.000993104652f, -0.000991189503f, -0.000989241642f, -0.000987261184f, -0.000985248131f, -0.000983202714f, -0.000981125049f, -0.000979015022f,
 -0.00097687298f, -0.000974698924f, -0.00097249297f, -0.000970255176f, -0.000967985718f, -0.000965684711f, -0.000963352271f, -0.0009609884f,
 -0.000958593329f, -0.000956167118f, -0.000953709881f, -0.000951221795f, -0.000948702858f, -0.000946153305f, -0.000943573192f, -0.000940962636f,
 -0.000938321755f, -0.000935650663f, -0.000932949537f, -0.000930218492f, -0.000927457586f, -0.000924666994f, -0.000921846833f, -0.000918997219f,
 -0.000916118268f, -0.000913210155f, -0.000910272996f, -0.00090730685f, -0.00090431195f, -0.000901288353f, -0.000898236234f, -0.00089515571f,
 -0.000892046897f, -0.00088890997f, -0.000885744987f, -0.00088255218f, -0.000879331667f, -0.000876083563f, -0.000872808043f, -0.000869505166f,
 -0.000866175105f, -0.000862818095f, -0.000859434134f, -0.000856023456f, -0.000852586236f, -0.000849122531f, -0.000845632516f, -0.000842116307f,
 -0.000838574138f, -0.000835006125f, -0.000831412384f, -0.00082779309f, -0.000824148359f, -0.000820478366f, -0.000816783286f, -0.000813063234f,
 -0.000809318386f, -0.000805548916f, -0.000801754941f, -0.000797936576f, -0.000794094114f, -0.000790227554f, -0.000786337187f, -0.000782423071f,
 -0.000778485439f, -0.000774524407f, -0.000770540151f, -0.000766532787f, -0.000762502546f, -0.000758449605f, -0.000754374021f, -0.000750276027f,
 -0.000746155798f, -0.00074201345f, -0.000737849216f, -0.000733663212f, -0.000729455613f, -0.000725226593f, -0.000720976328f, -0.000716704992f,
 -0.000712412701f, -0.000708099687f, -0.000703766069f, -0.000699412078f, -0.00069503783f, -0.000690643559f, -0.000686229323f, -0.000681795413f,
 -0.000677342003f, -0.000672869151f, -0.000668377092f, -0.000663866056f, -0.000659336161f, -0.00065478764f, -0.000650220551f, -0.000645635184f,
 -0.000641031656f, -0.000636410201f, -0.000631770934f, -0.000627114088f, -0.00062243978f, -0.000617748243f, -0.00061303965f, -0.000608314178f,
 -0.000603572f, -0.000598813291f, -0.000594038225f, -0.000589247036f, -0.00058443984f, -0.00057961687f, -0.0005747783f, -0.000569924247f,
 -0.000565055001f, -0.00056017068f, -0.000555271516f, -0.000550357625f, -0.000545429299f, -0.000540486595f, -0.000535529747f, -0.000530558988f,
 -0.000525574491f, -0.000520576432f, -0.000515564927f, -0.000510540267f, -0.000505502627f, -0.000500452123f, -0.000495388987f, -0.000490313454f,
 -0.00048522561f, -0.000480125746f, -0.000475013978f, -0.000469890569f, -0.000464755634f, -0.000459609408f, -0.000454452063f, -0.000449283776f,
 -0.000444104779f, -0.000438915245f, -0.000433715351f, -0.0004285053f, -0.000423285295f, -0.000418055512f, -0.000412816124f, -0.000407567364f,
 -0.000402309408f, -0.00039704243f, -0.000391766662f, -0.00038648225f, -0.000381189428f, -0.000375888339f, -0.000370579219f, -0.000365262269f,
 -0.000359937636f, -0.000354605552f, -0.000349266193f, -0.000343919761f, -0.00033856646f, -0.000333206437f, -0.000327839953f, -0.000322467124f,
 -0.000317088212f, -0.000311703392f, -0.00030631281f, -0.000300916727f, -0.000295515318f, -0.000290108757f, -0.000284697249f, -0.000279280968f,
 -0.000273860147f, -0.00026843496f, -0.000263005582f, -0.000257572246f, -0.000252135098f, -0.00024669437f, -0.000241250251f, -0.000235802916f,
 -0.000230352569f, -0.000224899399f, -0.000219443609f, -0.000213985375f, -0.0002085249f, -0.000203062387f, -0.000197598012f, -0.000192131978f,
 -0.000186664474f, -0.00018119569f, -0.000175725814f, -0.000170255051f, -0.000164783574f, -0.000159311603f, -0.000153839297f, -0.000148366875f,
 -0.000142894511f, -0.000137422394f, -0.000131950743f, -0.000126479703f, -0.000121009507f, -0.000115540322f, -0.000110072346f, -0.000104605759f,
 -9.91407651e-05f, -9.36775396e-05f, -8.82162858e-05f, -8.27571785e-05f, -7.7300414e-05f, -7.18461815e-05f, -6.63946703e-05f, -6.09460585e-05f,
 -5.5500539e-05f, -5.0058301e-05f, -4.46195299e-05f, -3.91844151e-05f, -3.37531383e-05f, -2.83258851e-05f, -2.29028446e-05f, -1.74842025e-05f,
 -1.20701407e-05f, -6.66084543e-06f, -1.25650081e-06f, 4.1427088e-06f, 9.53660037e-06f, 1.49249909e-05f, 2.03076961e-05f, 2.56845342e-05f,
 3.1055326e-05f, 3.64198822e-05f, 4.1778032e-05f, 4.71295862e-05f, 5.24743664e-05f, 5.78121908e-05f, 6.31428848e-05f, 6.84662664e-05f,
 7.37821538e-05f, 7.90903723e-05f, 8.43907474e-05f, 8.96830898e-05f, 9.49672321e-05f, 0.000100242993f, 0.000105510204f, 0.000110768677f,
 0.000116018251f, 0.000121258738f, 0.000126489977f, 0.000131711771f, 0.000136923976f, 0.000142126402f, 0.00014731889f, 0.000152501249f,
 0.000157673305f, 0.000162834913f, 0.000167985898f, 0.000173126071f, 0.000178255272f, 0.00018337334f, 0.000188480102f, 0.000193575383f,
 0.000198659021f, 0.000203730859f, 0.00020879072f, 0.000213838444f, 0.000218873858f, 0.000223896815f, 0.000228907142f, 0.000233904662f,
 0.000238889232f, 0.00024386069f, 0.000248818862f, 0.000253763603f, 0.000258694752f, 0.000263612135f, 0.000268515607f, 0.000273404992f,
 0.000278280146f, 0.000283140922f, 0.000287987146f, 0.000292818702f, 0.000297635357f, 0.000302437053f, 0.000307223556f, 0.000311994751f,
 0.000316750491f, 0.000321490603f, 0.00032621494f, 0.000330923387f, 0.000335615769f, 0.00034029191f, 0.000344951695f, 0.000349594979f,
 0.000354221615f, 0.000358831458f, 0.000363424333f, 0.000368000125f, 0.000372558687f, 0.000377099874f, 0.00038162354f, 0.00038612957f,
 0.000390617759f, 0.000395088049f, 0.000399540237f, 0.000403974234f, 0.000408389868f, 0.00041278702f, 0.000417165516f, 0.000421525299f,
 0.000425866165f, 0.000430187996f, 0.000434490677f, 0.000438774063f, 0.000443038036f, 0.000447282451f, 0.000451507163f, 0.000455712085f,
 0.00045989707f, 0.000464062003f, 0.000468206737f, 0.000472331129f, 0.000476435118f, 0.000480518502f, 0.000484581222f, 0.000488623162f,
 0.000492644147f, 0.000496644061f, 0.000500622788f, 0.000504580268f, 0.000508516328f, 0.00051243091f, 0.00051632378f, 0.000520194939f,
 0.000524044211f, 0.00052787154f, 0.000531676749f, 0.000535459723f, 0.000539220462f, 0.000542958733f, 0.000546674419f, 0.00055036752f,
 0.000554037862f, 0.000557685329f, 0.000561309862f, 0.000564911345f, 0.000568489602f, 0.000572044635f, 0.000575576269f, 0.000579084444f,
 0.000582569046f, 0.000586029957f, 0.000589467119f, 0.000592880417f, 0.000596269732f, 0.00059963495f, 0.00060297607f, 0.000606292975f,
 0.000609585491f, 0.000612853561f, 0.000616097124f, 0.000619316124f, 0.000622510386f, 0.000625679852f, 0.000628824462f, 0.000631944102f,
 0.000635038712f, 0.000638108177f, 0.000641152496f, 0.000644171436f, 0.000647165056f, 0.000650133181f, 0.000653075811f, 0.00065599283f,
 0.000658884179f, 0.000661749684f, 0.000664589403f, 0.000667403219f, 0.000670191075f, 0.000672952854f, 0.00067568844f, 0.00067839789f,
 0.000681081088f, 0.000683737919f, 0.000686368323f, 0.000688972301f, 0.000691549736f, 0.000694100512f, 0.000696624687f, 0.000699122145f,
 0.000701592769f, 0.000704036618f, 0.000706453517f, 0.000708843407f, 0.000711206347f, 0.000713542162f, 0.000715850852f, 0.00071813236f,
 0.000720386684f, 0.000722613651f, 0.000724813261f, 0.000726985512f, 0.00072913029f, 0.000731247652f, 0.000733337365f, 0.000735399546f,
 0.000737434137f, 0.00073944102f, 0.000741420139f, 0.000743371551f, 0.000745295139f, 0.000747190905f, 0.000749058789f, 0.000750898733f,
 0.000752710737f, 0.000754494744f, 0.000756250753f, 0.000757978647f, 0.000759678485f, 0.000761350209f, 0.000762993703f, 0.000764609082f,
 0.00076619623f, 0.000767755148f, 0.000769285718f, 0.000770788058f, 0.00077226205f, 0.000773707754f, 0.000775125052f, 0.000776513945f,
 0.000777874433f, 0.000779206457f, 0.000780510076f, 0.000781785231f, 0.000783031865f, 0.000784250034f, 0.000785439683f, 0.000786600809f,
 0.000787733356f, 0.00078883738f, 0.000789912825f, 0.00079095969f, 0.000791977975f, 0.000792967679f, 0.000793928804f, 0.000794861291f,
 0.000795765198f, 0.000796640466f, 0.000797487155f, 0.000798305206f, 0.000799094618f, 0.00079985545f, 0.000800587644f, 0.000801291259f,
 0.000801966235f, 0.000802612631f, 0.000803230447f, 0.000803819625f, 0.000804380223f, 0.000804912241f, 0.000805415737f, 0.000805890595f,
 0.00080633699f, 0.000806754804f, 0.000807144097f, 0.000807504926f, 0.000807837234f, 0.00080814102f, 0.0008084164f, 0.000808663375f,
 0.000808881887f, 0.000809071993f, 0.000809233694f, 0.000809367106f, 0.000809472171f, 0.000809548888f, 0.000809597317f, 0.000809617515f,
 0.000809609483f, 0.000809573219f, 0.000809508841f, 0.000809416233f, 0.000809295569f, 0.00080914679f, 0.000808970013f, 0.00080876518f,
 0.00080853235f, 0.000808271638f, 0.000807982928f, 0.000807666394f, 0.000807322038f, 0.000806949858f, 0.000806549971f, 0.00080612232f,
 0.000805667019f, 0.00080518407f, 0.000804673531f, 0.000804135459f, 0.000803569914f, 0.000802976952f, 0.000802356517f, 0.000801708782f,
 0.000801033748f, 0.000800331414f, 0.000799601898f, 0.000798845256f, 0.000798061548f, 0.000797250716f, 0.000796412991f, 0.000795548258f,
 0.000794656691f, 0.000793738291f, 0.000792793115f, 0.00079182128f, 0.000790822785f, 0.000789797748f, 0.000788746169f, 0.000787668105f,
 0.000786563731f, 0.000785432931f, 0.000784275937f, 0.00078309275f, 0.000781883427f, 0.000780648028f, 0.000779386668f, 0.000778099406f,
 0.000776786241f, 0.000775447348f, 0.00077408267f, 0.000772692438f, 0.000771276595f, 0.000769835315f, 0.000768368598f, 0.000766876561f,
 0.000765359262f, 0.000763816759f, 0.000762249227f, 0.000760656607f, 0.000759039074f, 0.000757396687f, 0.000755729503f, 0.000754037639f,
 0.000752321153f, 0.000750580162f, 0.000748814666f, 0.000747024897f, 0.000745210797f, 0.00074337254f, 0.000741510186f, 0.000739623851f,
 0.000737713592f, 0.000735779468f, 0.000733821653f, 0.000731840148f, 0.000729835127f, 0.000727806648f, 0.00072575477f, 0.000723679666f,
 0.000721581397f, 0.000719460018f, 0.000717315648f, 0.000715148461f, 0.000712958397f, 0.000710745691f, 0.000708510459f, 0.000706252642f,
 0.000703972531f, 0.000701670069f, 0.00069934543f, 0.00069699873f, 0.000694630085f, 0.000692239555f, 0.000689827255f, 0.000687393243f,
 0.000684937753f, 0.000682460784f, 0.000679962512f, 0.000677442993f, 0.000674902345f, 0.000672340684f, 0.000669758127f, 0.000667154789f,
 0.000664530788f, 0.000661886181f, 0.000659221143f, 0.000656535733f, 0.000653830124f, 0.000651104434f, 0.00064835872f, 0.000645593158f,
 0.000642807747f, 0.000640002778f, 0.000637178251f, 0.000634334283f, 0.000631471048f, 0.000628588663f, 0.000625687186f, 0.000622766791f,
 0.000619827537f, 0.000616869656f, 0.000613893149f, 0.000610898249f, 0.000607885013f, 0.000604853558f, 0.000601804f, 0.000598736515f,
 0.000595651218f, 0.000592548167f, 0.000589427596f, 0.000586289563f, 0.000583134184f, 0.000579961634f, 0.00057677197f, 0.000573565369f,
 0.000570342003f, 0.000567101932f, 0.000563845329f, 0.000560572254f, 0.00055728294f, 0.000553977443f, 0.000550655939f, 0.000547318486f,
 0.000543965318f, 0.000540596491f, 0.000537212181f, 0.000533812505f, 0.000530397578f, 0.000526967575f, 0.000523522554f, 0.000520062807f,
 0.000516588276f, 0.00051309925f, 0.000509595789f, 0.000506078009f, 0.000502546143f, 0.000499000249f, 0.000495440443f, 0.000491866958f,
 0.000488279853f, 0.000484679302f, 0.000481065421f, 0.000477438385f, 0.000473798311f, 0.000470145344f, 0.0004664796f, 0.000462801254f,
 0.000459110423f, 0.00045540728f, 0.000451691943f, 0.000447964529f, 0.000444225239f, 0.000440474192f, 0.000436711503f, 0.000432937348f,
 0.000429151842f, 0.00042535516f, 0.000421547418f, 0.000417728763f, 0.000413899368f, 0.000410059351f, 0.000406208856f, 0.000402348058f,
 0.000398477074f, 0.000394596049f, 0.000390705129f, 0.000386804459f, 0.000382894214f, 0.00037897451f, 0.000375045493f, 0.000371107308f,
 0.00036716013f, 0.000363204075f, 0.000359239319f, 0.000355265976f, 0.000351284223f, 0.000347294175f, 0.000343296037f, 0.000339289894f,
 0.000335275923f, 0.000331254239f, 0.000327225047f, 0.000323188462f, 0.000319144659f, 0.000315093755f, 0.000311035896f, 0.000306971255f,
 0.000302899949f, 0.000298822153f, 0.000294738042f, 0.000290647702f, 0.000286551309f, 0.000282449037f, 0.000278341002f, 0.000274227379f,
 0.000270108285f, 0.000265983894f, 0.00026185438f, 0.000257719832f, 0.000253580423f, 0.000249436329f, 0.000245287694f, 0.000241134621f,
 0.000236977314f, 0.000232815888f, 0.000228650504f, 0.000224481322f, 0.000220308473f, 0.000216132132f, 0.000211952414f, 0.000207769495f,
 0.00020358352f, 0.000199394621f, 0.000195202971f, 0.000191008716f, 0.000186811987f, 0.000182612945f, 0.000178411734f, 0.000174208515f,
 0.000170003434f, 0.00016579662f, 0.00016158825f, 0.000157378439f, 0.000153167377f, 0.00014895518f, 0.000144742022f, 0.00014052802f,
 0.000136313349f, 0.000132098139f, 0.000127882551f, 0.000123666716f, 0.000119450808f, 0.00011523495f, 0.000111019304f, 0.000106804015f,
 0.00010258922f, 9.83750724e-05f, 9.41617182e-05f, 8.99493098e-05f, 8.57379855e-05f, 8.15278909e-05f, 7.73191787e-05f, 7.31119871e-05f,
 6.89064691e-05f, 6.470277e-05f, 6.05010246e-05f, 5.63013855e-05f, 5.21039983e-05f, 4.79090049e-05f, 4.37165509e-05f, 3.9526778e-05f,
 3.53398318e-05f, 3.11558542e-05f, 2.69749926e-05f, 2.27973851e-05f, 1.86231755e-05f, 1.44525084e-05f, 1.02855247e-05f, 6.12236545e-06f,
 1.96317387e-06f, -2.19190929e-06f, -6.34274329e-06f, -1.04891869e-05f, -1.46310995e-05f, -1.87683418e-05f, -2.29007728e-05f, -2.70282526e-05f,
 -3.1150641e-05f, -3.52678035e-05f, -3.93795999e-05f, -4.34858885e-05f, -4.75865309e-05f, -5.16813961e-05f, -5.57703388e-05f, -5.98532279e-05f,
 -6.39299251e-05f, -6.80002922e-05f, -7.20641983e-05f, -7.61215051e-05f, -8.01720744e-05f, -8.42157679e-05f, -8.82524619e-05f, -9.22820182e-05f,
 -9.63043058e-05f, -0.000100319179f, -0.000104326522f, -0.000108326196f, -0.000112318063f, -0.000116301992f, -0.000120277859f, -0.000124245533f,
 -0.000128204876f, -0.000132155765f, -0.000136098053f, -0.00014003164f, -0.000143956378f, -0.000147872153f, -0.000151778819f, -0.000155676244f,
 -0.000159564341f, -0.000163442935f, -0.000167311926f, -0.000171171196f, -0.000175020599f, -0.00017886002f, -0.000182689328f, -0.000186508405f,
 -0.000190317136f, -0.00019411539f, -0.000197903049f, -0.000201679984f, -0.000205446078f, -0.000209201215f, -0.000212945262f, -0.000216678105f,
 -0.000220399626f, -0.00022410971f, -0.000227808239f, -0.000231495083f, -0.000235170155f, -0.000238833294f, -0.000242484428f, -0.000246123411f,
 -0.000249750126f, -0.000253364473f, -0.000256966363f, -0.000260555622f, -0.000264132192f, -0.000267695956f, -0.000271246739f, -0.000274784514f,
 -0.000278309133f, -0.000281820452f, -0.000285318441f, -0.000288802927f, -0.00029227382f, -0.000295731006f, -0.000299174397f, -0.000302603847f,
 -0.000306019327f, -0.000309420633f, -0.000312807737f, -0.000316180522f, -0.000319538842f, -0.000322882639f, -0.000326211797f, -0.000329526229f,
 -0.000332825788f, -0.000336110417f, -0.00033938f, -0.000342634419f, -0.000345873617f, -0.000349097478f, -0.000352305913f, -0.000355498807f,
 -0.000358676072f, -0.000361837592f, -0.000364983338f, -0.000368113135f, -0.000371226924f, -0.000374324649f, -0.000377406162f, -0.000380471378f,
 -0.000383520237f, -0.000386552652f, -0.000389568479f, -0.000392567687f, -0.000395550189f, -0.00039851584f, -0.000401464611f, -0.000404396385f,
 -0.000407311076f, -0.000410208624f, -0.000413088914f, -0.000415951887f, -0.000418797455f, -0.000421625533f, -0.000424436032f, -0.000427228893f,
 -0.000430004002f, -0.000432761328f, -0.000435500755f, -0.000438222225f, -0.000440925622f, -0.000443610916f, -0.00044627802f, -0.000448926876f,
 -0.000451557367f, -0.000454169436f, -0.000456763024f, -0.000459338044f, -0.000461894437f, -0.000464432116f, -0.000466951053f, -0.00046945113f,
 -0.00047193229f, -0.000474394474f, -0.000476837624f, -0.000479261653f, -0.000481666502f, -0.000484052114f, -0.00048641843f, -0.000488765363f,
 -0.000491092913f, -0.000493400905f, -0.000495689397f, -0.000497958274f, -0.000500207476f, -0.000502436887f, -0.000504646567f, -0.000506836397f,
 -0.00050900632f, -0.000511156279f, -0.000513286272f, -0.000515396125f, -0.000517485896f, -0.000519555528f, -0.000521604903f, -0.000523633964f,
 -0.000525642768f, -0.000527631142f, -0.000529599143f, -0.000531546655f, -0.00053347362f, -0.000535380037f, -0.000537265849f, -0.000539130997f,
 -0.000540975423f, -0.000542799127f, -0.000544602051f, -0.000546384137f, -0.000548145385f, -0.000549885677f, -0.000551605073f, -0.000553303456f,
 -0.000554980768f, -0.000556637067f, -0.000558272237f, -0.000559886277f, -0.000561479188f, -0.000563050853f, -0.000564601272f, -0.000566130446f,
 -0.000567638315f, -0.000569124881f, -0.000570590026f, -0.000572033809f, -0.000573456171f, -0.000574857055f, -0.000576236518f, -0.000577594445f,
 -0.000578930834f, -0.000580245687f, -0.000581538945f, -0.000582810608f, -0.000584060675f, -0.00058528909f, -0.000586495793f, -0.000587680843f,
 -0.000588844181f, -0.000589985808f, -0.000591105723f, -0.000592203811f, -0.000593280187f, -0.000594334735f, -0.000595367514f, -0.000596378464f,
 -0.000597367587f, -0.000598334824f, -0.000599280233f, -0.000600203814f, -0.00060110545f, -0.000601985259f, -0.000602843182f, -0.00060367916f,
 -0.000604493252f, -0.000605285401f, -0.000606055663f, -0.000606804038f, -0.000607530412f, -0.000608234899f, -0.000608917442f, -0.000609578041f,
 -0.000610216754f, -0.000610833464f, -0.000611428288f, -0.000612001168f, -0.000612552103f, -0.000613081153f, -0.000613588258f, -0.000614073419f,
 -0.000614536693f, -0.000614978082f, -0.000615397526f, -0.000615795143f, -0.000616170815f, -0.00061652466f, -0.000616856618f, -0.000617166748f,
 -0.000617454993f, -0.000617721409f, -0.000617966056f, -0.000618188875f, -0.000618389924f, -0.000618569204f, -0.000618726714f, -0.000618862454f,
 -0.000618976541f, -0.000619068858f, -0.000619139522f, -0.000619188533f, -0.000619215891f, -0.000619221653f, -0.000619205763f, -0.000619168335f,
 -0.000619109313f, -0.000619028811f, -0.000618926773f, -0.000618803257f, -0.000618658261f, -0.000618491904f, -0.000618304126f, -0.000618094928f,
 -0.000617864484f, -0.000617612619f, -0.000617339567f, -0.000617045211f, -0.000616729667f, -0.000616392936f, -0.000616035017f, -0.000615656027f,
 -0.000615255965f, -0.000614834833f, -0.000614392688f, -0.000613929587f, -0.000613445533f, -0.000612940639f, -0.000612414849f, -0.000611868221f,
 -0.000611300813f, -0.000610712683f, -0.000610103889f, -0.000609474431f, -0.000608824368f, -0.000608153758f, -0.0006074626f, -0.000606750953f,
 -0.000606018933f, -0.000605266483f, -0.000604493718f, -0.000603700639f, -0.000602887361f, -0.000602053886f, -0.00060120027f, -0.000600326573f,
 -0.000599432853f, -0.000598519109f, -0.000597585517f, -0.000596631959f, -0.00059565861f, -0.000594665471f, -0.000593652658f, -0.00059262017f,
 -0.000591568067f, -0.000590496405f, -0.000589405303f, -0.000588294701f, -0.000587164774f, -0.00058601558f, -0.000584847061f, -0.000583659392f,
 -0.000582452572f, -0.000581226661f, -0.000579981774f, -0.000578717969f, -0.000577435247f, -0.000576133723f, -0.000574813457f, -0.000573474506f,
 -0.000572116987f, -0.000570740842f, -0.000569346244f, -0.000567933253f, -0.000566501869f, -0.000565052207f, -0.000563584385f, -0.000562098401f,
 -0.000560594315f, -0.000559072301f, -0.000557532301f, -0.00055597449f, -0.000554398866f, -0.000552805606f, -0.000551194651f, -0.000549566117f,
 -0.000547920179f, -0.000546256779f, -0.000544576033f, -0.000542878115f, -0.000541162968f, -0.000539430708f, -0.000537681452f, -0.000535915256f,
 -0.000534132181f, -0.000532332284f, -0.000530515739f, -0.000528682605f, -0.000526832882f, -0.000524966686f, -0.000523084134f, -0.000521185342f,
 -0.000519270252f, -0.000517339096f, -0.000515391876f, -0.000513428706f, -0.000511449645f, -0.000509454811f, -0.000507444318f, -0.000505418167f,
 -0.000503376476f, -0.000501319359f, -0.000499246933f, -0.000497159199f, -0.000495056272f, -0.000492938329f, -0.000490805367f, -0.000488657446f,
 -0.00048649477f, -0.000484317366f, -0.000482125295f, -0.00047991873f, -0.000477697671f, -0.000475462293f, -0.000473212625f, -0.000470948813f,
 -0.000468670914f, -0.000466379046f, -0.000464073295f, -0.000461753749f, -0.000459420495f, -0.000457073649f, -0.000454713299f, -0.000452339533f,
 -0.000449952466f, -0.000447552186f, -0.000445138809f, -0.000442712393f, -0.000440273085f, -0.000437820941f, -0.000435356051f, -0.000432878587f,
 -0.00043038858f, -0.000427886145f, -0.0004253714f, -0.00042284443f, -0.000420305354f, -0.000417754229f, -0.000415191229f, -0.000412616384f,
 -0.000410029839f, -0.000407431682f, -0.000404822029f, -0.000402200967f, -0.000399568613f, -0.000396925054f, -0.000394270406f, -0.000391604757f,
 -0.000388928253f, -0.000386240979f, -0.000383542996f, -0.000380834477f, -0.000378115481f, -0.000375386153f, -0.000372646551f, -0.000369896821f,
 -0.00036713705f, -0.000364367355f, -0.000361587823f, -0.000358798599f, -0.000355999771f, -0.000353191426f, -0.00035037371f, -0.000347546709f,
 -0.000344710512f, -0.000341865263f, -0.00033901108f, -0.000336148049f, -0.000333276257f, -0.000330395851f, -0.000327506918f, -0.000324609602f,
 -0.000321703963f, -0.000318790146f, -0.000315868267f, -0.000312938413f, -0.000310000702f, -0.000307055219f, -0.000304102141f, -0.000301141525f,
 -0.000298173516f, -0.000295198202f, -0.000292215671f, -0.000289226096f, -0.000286229566f, -0.000283226167f, -0.000280216016f, -0.000277199259f,
 -0.000274175982f, -0.000271146302f, -0.000268110336f, -0.0002650682f, -0.000262019981f, -0.000258965825f, -0.000255905848f, -0.000252840138f,
 -0.000249768811f, -0.000246691983f, -0.000243609757f, -0.000240522277f, -0.000237429645f, -0.000234331965f, -0.000231229351f, -0.00022812192f,
 -0.00022500979f, -0.000221893075f, -0.000218771878f, -0.000215646316f, -0.000212516519f, -0.000209382575f, -0.000206244629f, -0.000203102769f,
 -0.00019995711f, -0.000196807785f, -0.00019365488f, -0.00019049854f, -0.000187338868f, -0.000184175966f, -0.000181009964f, -0.000177840964f,
 -0.000174669083f, -0.000171494437f, -0.000168317143f, -0.000165137302f, -0.000161955046f, -0.00015877049f, -0.000155583723f, -0.000152394874f,
 -0.000149204061f, -0.0001460114f, -0.000142816993f, -0.000139620955f, -0.000136423405f, -0.000133224457f, -0.000130024215f, -0.000126822808f,
 -0.000123620339f, -0.000120416924f, -0.000117212672f, -0.000114007693f, -0.00011080211f, -0.000107596032f, -0.000104389575f, -0.000101182843f,
 -9.79759498e-05f, -9.47690205e-05f, -9.15621495e-05f, -8.83554603e-05f, -8.51490622e-05f, -8.19430643e-05f, -7.8737583e-05f, -7.55327274e-05f,
 -7.23286066e-05f, -6.91253372e-05f, -6.59230282e-05f, -6.27217887e-05f, -5.95217316e-05f, -5.6322966e-05f, -5.31256046e-05f, -4.99297566e-05f,
 -4.67355349e-05f, -4.35430447e-05f, -4.03523954e-05f, -3.71637034e-05f, -3.39770741e-05f, -3.0792613e-05f, -2.76104365e-05f, -2.44306484e-05f,
 -2.12533596e-05f, -1.80786792e-05f, -1.49067137e-05f, -1.1737573e-05f, -8.57136274e-06f, -5.40819292e-06f, -2.24816972e-06f, 9.08599418e-07f,
 4.06200706e-06f, 7.21194692e-06f, 1.03583125e-05f, 1.35009968e-05f, 1.6639895e-05f, 1.97748996e-05f, 2.2905906e-05f, 2.60328088e-05f,
 2.91555025e-05f, 3.22738815e-05f, 3.53878459e-05f, 3.84972845e-05f, 4.16020994e-05f, 4.47021812e-05f, 4.77974318e-05f, 5.08877456e-05f,
 5.39730172e-05f, 5.70531483e-05f, 6.01280335e-05f, 6.31975709e-05f, 6.62616658e-05f, 6.93202019e-05f, 7.23730918e-05f, 7.54202265e-05f,
 7.84615113e-05f, 8.14968444e-05f, 8.45261238e-05f, 8.75492478e-05f, 9.05661291e-05f, 9.35766511e-05f, 9.65807267e-05f, 9.95782539e-05f,
 0.000102569138f, 0.000105553278f, 0.00010853057f, 0.000111500936f, 0.000114464259f, 0.000117420459f, 0.000120369426f, 0.000123311082f,
 0.000126245315f, 0.00012917204f, 0.000132091154f, 0.000135002556f, 0.000137906187f, 0.000140801916f, 0.000143689671f, 0.000146569349f,
 0.000149440864f, 0.000152304128f, 0.000155159039f, 0.000158005496f, 0.00016084344f, 0.000163672768f, 0.000166493366f, 0.000169305189f,
 0.000172108106f, 0.000174902045f, 0.000177686918f, 0.000180462652f, 0.000183229131f, 0.000185986282f, 0.000188734019f, 0.000191472267f,
 0.000194200911f, 0.000196919893f, 0.000199629125f, 0.000202328505f, 0.000205017961f, 0.000207697405f, 0.000210366765f, 0.000213025953f,
 0.000215674867f, 0.000218313464f, 0.000220941627f, 0.000223559284f, 0.000226166376f, 0.000228762801f, 0.000231348473f, 0.000233923332f,
 0.000236487293f, 0.000239040281f, 0.000241582209f, 0.000244113005f, 0.000246632611f, 0.000249140896f, 0.00025163783f, 0.000254123355f,
 0.000256597355f, 0.000259059772f, 0.000261510519f, 0.000263949536f, 0.000266376737f, 0.000268792093f, 0.000271195458f, 0.000273586833f,
 0.0002759661f, 0.000278333231f, 0.000280688109f, 0.000283030677f, 0.000285360875f, 0.000287678646f, 0.000289983902f, 0.000292276585f,
 0.000294556638f, 0.000296823971f, 0.000299078558f, 0.00030132028f, 0.00030354911f, 0.000305764959f, 0.00030796777f, 0.000310157513f,
 0.000312334072f, 0.000314497418f, 0.000316647493f, 0.000318784238f, 0.000320907566f, 0.000323017419f, 0.000325113768f, 0.000327196525f,
 0.000329265633f, 0.000331321062f, 0.000333362725f, 0.000335390592f, 0.000337404577f, 0.000339404622f, 0.000341390725f, 0.000343362772f,
 0.000345320732f, 0.000347264548f, 0.00034919419f, 0.000351109571f, 0.000353010633f, 0.000354897376f, 0.000356769713f, 0.000358627585f,
 0.000360470964f, 0.000362299819f, 0.000364114036f, 0.000365913642f, 0.000367698522f, 0.000369468675f, 0.000371224072f, 0.000372964598f,
 0.000374690251f, 0.000376401003f, 0.000378096796f, 0.000379777543f, 0.000381443271f, 0.000383093895f, 0.000384729385f, 0.000386349682f,
 0.000387954788f, 0.000389544613f, 0.00039111916f, 0.000392678368f, 0.00039422221f, 0.000395750627f, 0.000397263619f, 0.000398761098f,
 0.000400243094f, 0.000401709491f, 0.000403160317f, 0.000404595543f, 0.000406015082f, 0.000407418935f, 0.000408807071f, 0.000410179462f,
 0.00041153605f, 0.000412876805f, 0.000414201757f, 0.000415510789f, 0.00041680396f, 0.000418081181f, 0.000419342425f, 0.00042058769f,
 0.000421816949f, 0.000423030171f, 0.000424227328f, 0.000425408391f, 0.00042657333f, 0.000427722145f, 0.000428854779f, 0.00042997126f,
 0.000431071501f, 0.000432155532f, 0.000433223322f, 0.000434274843f, 0.000435310096f, 0.000436329021f, 0.000437331648f, 0.000438317918f,
 0.000439287833f, 0.000440241362f, 0.000441178505f, 0.000442099263f, 0.000443003577f, 0.000443891477f, 0.000444762933f, 0.000445617916f,
 0.000446456426f, 0.000447278464f, 0.000448084f, 0.000448873034f, 0.000449645566f, 0.000450401538f, 0.000451141008f, 0.000451863918f,
 0.000452570297f, 0.000453260116f, 0.000453933375f, 0.000454590045f, 0.000455230154f, 0.000455853704f, 0.000456460664f, 0.000457051035f,
 0.000457624788f, 0.000458181981f, 0.000458722585f, 0.000459246599f, 0.000459753996f, 0.000460244832f, 0.000460719049f, 0.000461176678f,
 0.000461617747f, 0.000462042197f, 0.000462450058f, 0.000462841359f, 0.000463216071f, 0.000463574223f, 0.000463915814f, 0.000464240817f,
 0.000464549288f, 0.0004648412f, 0.00046511658f, 0.000465375429f, 0.000465617748f, 0.000465843565f, 0.000466052879f, 0.000466245692f,
 0.000466422003f, 0.000466581871f, 0.000466725294f, 0.000466852245f, 0.000466962752f, 0.000467056874f, 0.000467134581f, 0.000467195874f,
 0.000467240839f, 0.000467269419f, 0.000467281643f, 0.000467277569f, 0.000467257196f, 0.000467220496f, 0.000467167556f, 0.000467098376f,
 0.000467012957f, 0.000466911326f, 0.000466793485f, 0.00046665952f, 0.000466509373f, 0.000466343132f, 0.000466160796f, 0.000465962366f,
 0.000465747871f, 0.000465517398f, 0.000465270889f, 0.000465008401f, 0.000464729994f, 0.000464435638f, 0.00046412542f, 0.000463799312f,
 0.000463457371f, 0.000463099626f, 0.000462726108f, 0.000462336844f, 0.000461931864f, 0.000461511168f, 0.000461074844f, 0.00046062289f,
 0.000460155366f, 0.000459672272f, 0.000459173665f, 0.000458659546f, 0.000458130002f, 0.000457585003f, 0.000457024638f, 0.000456448935f,
 0.000455857924f, 0.000455251633f, 0.000454630121f, 0.000453993416f, 0.000453341519f, 0.000452674547f, 0.00045199247f, 0.000451295346f,
 0.000450583262f, 0.00044985619f, 0.000449114217f, 0.000448357343f, 0.000447585684f, 0.000446799211f, 0.000445997983f, 0.000445182086f,
 0.000444351521f, 0.000443506346f, 0.000442646618f, 0.000441772339f, 0.000440883625f, 0.000439980475f, 0.000439062918f, 0.000438131072f,
 0.000437184906f, 0.000436224538f, 0.000435249967f, 0.000434261281f, 0.000433258479f, 0.000432241679f, 0.000431210879f, 0.000430166139f,
 0.000429107517f, 0.000428035069f, 0.000426948856f, 0.000425848906f, 0.000424735277f, 0.000423608057f, 0.000422467274f, 0.000421312958f,
 0.000420145196f, 0.000418964075f, 0.000417769566f, 0.000416561787f, 0.000415340794f, 0.000414106617f, 0.000412859343f, 0.000411599001f,
 0.00041032568f, 0.000409039407f, 0.000407740241f, 0.000406428269f, 0.00040510355f, 0.000403766113f, 0.000402416044f, 0.000401053403f,
 0.000399678218f, 0.000398290606f, 0.000396890595f, 0.000395478273f, 0.00039405367f, 0.000392616843f, 0.000391167909f, 0.000389706867f,
 0.000388233835f, 0.000386748841f, 0.000385251973f, 0.000383743289f, 0.000382222875f, 0.000380690733f, 0.000379147008f, 0.000377591728f,
 0.000376024953f, 0.000374446739f, 0.000372857205f, 0.000371256378f, 0.000369644345f, 0.000368021167f, 0.000366386899f, 0.000364741631f,
 0.000363085448f, 0.000361418352f, 0.000359740487f, 0.000358051911f, 0.000356352655f, 0.000354642834f, 0.000352922478f, 0.000351191702f,
 0.000349450536f, 0.000347699097f, 0.000345937413f, 0.000344165572f, 0.00034238369f, 0.000340591767f, 0.00033878992f, 0.000336978235f,
 0.000335156743f, 0.000333325559f, 0.000331484742f, 0.000329634349f, 0.000327774469f, 0.000325905188f, 0.000324026594f, 0.000322138716f,
 0.00032024167f, 0.000318335544f, 0.000316420366f, 0.000314496225f, 0.000312563236f, 0.000310621428f, 0.000308670918f, 0.000306711765f,
 0.000304744055f, 0.000302767847f, 0.000300783257f, 0.000298790314f, 0.000296789134f, 0.000294779806f, 0.000292762357f, 0.000290736905f,
 0.000288703537f, 0.000286662311f, 0.000284613314f, 0.000282556633f, 0.000280492328f, 0.000278420513f, 0.000276341249f, 0.000274254591f,
 0.000272160687f, 0.000270059536f, 0.000267951284f, 0.000265835988f, 0.000263713737f, 0.000261584617f, 0.000259448687f, 0.000257306034f,
 0.000255156774f, 0.000253000937f, 0.000250838668f, 0.000248669996f, 0.000246495008f, 0.000244313822f, 0.000242126509f, 0.000239933142f,
 0.00023773381f, 0.000235528583f, 0.000233317565f, 0.000231100828f, 0.00022887846f, 0.000226650547f, 0.000224417163f, 0.000222178409f,
 0.000219934343f, 0.000217685083f, 0.000215430686f, 0.000213171254f, 0.000210906859f, 0.000208637604f, 0.000206363547f, 0.00020408479f,
 0.00020180142f, 0.000199513524f, 0.000197221161f, 0.000194924447f, 0.000192623454f, 0.000190318271f, 0.000188008984f, 0.000185695681f,
 0.000183378434f, 0.00018105733f, 0.000178732473f, 0.000176403933f, 0.0001740718f, 0.000171736159f, 0.000169397099f, 0.000167054692f,
 0.000164709039f, 0.000162360229f, 0.000160008334f, 0.000157653441f, 0.000155295638f, 0.000152935027f, 0.000150571665f, 0.000148205669f,
 0.000145837097f, 0.000143466037f, 0.000141092605f, 0.00013871686f, 0.000136338887f, 0.000133958776f, 0.000131576613f, 0.0001291925f,
 0.000126806495f, 0.000124418701f, 0.000122029203f, 0.000119638084f, 0.000117245421f, 0.000114851318f, 0.00011245584f, 0.000110059089f,
 0.000107661137f, 0.000105262079f, 0.000102861995f, 0.000100460973f, 9.80590994e-05f, 9.56564545e-05f, 9.32531257e-05f, 9.08492002e-05f,
 8.84447581e-05f, 8.60398941e-05f, 8.36346808e-05f, 8.12292055e-05f, 7.88235557e-05f, 7.64178185e-05f, 7.4012074e-05f, 7.16064023e-05f,
 6.9200898e-05f, 6.6795641e-05f, 6.43907115e-05f, 6.19861967e-05f, 5.95821803e-05f, 5.71787459e-05f, 5.47759737e-05f, 5.23739509e-05f,
 4.99727612e-05f, 4.75724883e-05f, 4.51732085e-05f, 4.27750128e-05f, 4.03779813e-05f, 3.7982194e-05f, 3.55877382e-05f, 3.31946903e-05f,
 3.08031376e-05f, 2.8413162e-05f, 2.60248435e-05f, 2.36382639e-05f, 2.12535069e-05f, 1.88706508e-05f, 1.6489781e-05f, 1.41109749e-05f,
 1.17343161e-05f, 9.35988373e-06f, 6.98776012e-06f, 4.61802483e-06f, 2.25075814e-06f, -1.13959295e-07f, -2.47604771e-06f, -4.83542726e-06f,
 -7.19201807e-06f, -9.5457408e-06f, -1.18965163e-05f, -1.42442659e-05f, -1.65889105e-05f, -1.89303701e-05f, -2.12685682e-05f, -2.36034248e-05f,
 -2.59348617e-05f, -2.82628025e-05f, -3.0587169e-05f, -3.29078866e-05f, -3.52248717e-05f, -3.75380514e-05f, -3.98473494e-05f, -4.21526856e-05f,
 -4.44539874e-05f, -4.67511745e-05f, -4.9044178e-05f, -5.13329142e-05f, -5.36173138e-05f, -5.5897297e-05f, -5.81727945e-05f, -6.04437264e-05f,
 -6.27100162e-05f, -6.49715948e-05f, -6.72283932e-05f, -6.94803239e-05f, -7.17273215e-05f, -7.39693132e-05f, -7.62062264e-05f, -7.84379881e-05f,
 -8.06645185e-05f, -8.28857592e-05f, -8.5101623e-05f, -8.73120443e-05f, -8.95169578e-05f, -9.17162906e-05f, -9.39099627e-05f, -9.6097916e-05f,
 -9.82800702e-05f, -0.00010045636f, -0.000102626713f, -0.000104791063f, -0.000106949337f, -0.000109101471f, -0.000111247398f, -0.000113387039f,
 -0.000115520335f, -0.000117647214f, -0.000119767617f, -0.000121881465f, -0.000123988706f, -0.000126089246f, -0.000128183048f, -0.00013027004f,
 -0.000132350149f, -0.000134423317f, -0.000136489471f, -0.000138548538f, -0.000140600474f, -0.000142645222f, -0.000144682679f, -0.000146712831f,
 -0.000148735577f, -0.000150750857f, -0.000152758628f, -0.000154758833f, -0.000156751383f, -0.000158736235f, -0.000160713316f, -0.000162682583f,
 -0.000164643963f, -0.000166597383f, -0.000168542814f, -0.000170480183f, -0.000172409433f, -0.000174330489f, -0.000176243324f, -0.00017814785f,
 -0.000180044022f, -0.000181931784f, -0.000183811077f, -0.000185681856f, -0.00018754405f, -0.0001893976f, -0.000191242463f, -0.00019307858f,
 -0.000194905893f, -0.000196724359f, -0.000198533919f, -0.0002003345f, -0.000202126088f, -0.000203908596f, -0.000205681979f, -0.000207446195f,
 -0.000209201185f, -0.000210946906f, -0.000212683299f, -0.00021441032f, -0.000216127897f, -0.000217836016f, -0.000219534602f, -0.000221223629f,
 -0.000222903021f, -0.000224572737f, -0.000226232747f, -0.000227882978f, -0.000229523415f, -0.000231153972f, -0.000232774648f, -0.000234385356f,
 -0.000235986066f, -0.000237576751f, -0.000239157336f, -0.000240727808f, -0.000242288093f, -0.000243838163f, -0.000245377974f, -0.000246907497f,
 -0.000248426659f, -0.00024993546f, -0.000251433812f, -0.000252921687f, -0.000254399085f, -0.000255865918f, -0.000257322157f, -0.000258767774f,
 -0.000260202738f, -0.000261626992f, -0.000263040507f, -0.000264443253f, -0.000265835173f, -0.000267216237f, -0.000268586416f, -0.000269945653f,
 -0.000271293946f, -0.000272631238f, -0.000273957528f, -0.000275272731f, -0.000276576844f, -0.000277869811f, -0.000279151631f, -0.000280422246f,
 -0.000281681656f, -0.000282929774f, -0.000284166628f, -0.000285392132f, -0.000286606315f, -0.000287809118f, -0.000289000483f, -0.00029018044f,
 -0.000291348901f, -0.000292505894f, -0.000293651363f, -0.000294785277f, -0.000295907608f, -0.000297018327f, -0.000298117433f, -0.000299204868f,
 -0.000300280633f, -0.000301344699f, -0.000302397035f, -0.000303437613f, -0.000304466404f, -0.000305483438f, -0.000306488626f, -0.000307481969f,
 -0.000308463437f, -0.000309433031f, -0.000310390751f, -0.000311336509f, -0.000312270335f, -0.000313192199f, -0.000314102072f, -0.000314999925f,
 -0.000315885787f, -0.000316759601f, -0.000317621365f, -0.00031847108f, -0.000319308689f, -0.00032013419f, -0.000320947584f, -0.000321748812f,
 -0.000322537933f, -0.000323314889f, -0.00032407965f, -0.000324832246f, -0.000325572619f, -0.000326300797f, -0.000327016751f, -0.000327720452f,
 -0.00032841193f, -0.000329091126f, -0.00032975807f, -0.00033041276f, -0.00033105514f, -0.000331685238f, -0.000332303025f, -0.000332908501f,
 -0.000333501666f, -0.000334082491f, -0.000334651006f, -0.00033520718f, -0.000335751014f, -0.000336282479f, -0.000336801633f, -0.000337308389f,
 -0.000337802805f, -0.000338284881f, -0.000338754558f, -0.000339211867f, -0.000339656835f, -0.000340089406f, -0.000340509607f, -0.000340917439f,
 -0.000341312902f, -0.000341695966f, -0.000342066691f, -0.000342425017f, -0.000342771003f, -0.000343104592f, -0.000343425811f, -0.00034373469f,
 -0.000344031199f, -0.00034431534f, -0.000344587141f, -0.000344846601f, -0.000345093693f, -0.000345328473f, -0.000345550885f, -0.000345761015f,
 -0.000345958804f, -0.000346144283f, -0.000346317451f, -0.000346478308f, -0.000346626883f, -0.000346763205f, -0.000346887216f, -0.000346999004f,
 -0.00034709851f, -0.000347185793f, -0.000347260851f, -0.000347323687f, -0.000347374298f, -0.000347412715f, -0.000347438967f, -0.000347453024f,
 -0.000347454945f, -0.000347444729f, -0.000347422378f, -0.00034738789f, -0.000347341324f, -0.000347282679f, -0.000347211957f, -0.000347129186f,
 -0.000347034395f, -0.000346927554f, -0.000346808723f, -0.000346677931f, -0.000346535147f, -0.000346380431f, -0.000346213783f, -0.000346035231f,
 -0.000345844775f, -0.000345642475f, -0.000345428329f, -0.000345202337f, -0.000344964559f, -0.000344714965f, -0.000344453641f, -0.000344180589f,
 -0.000343895779f, -0.000343599328f, -0.000343291176f, -0.000342971383f, -0.000342639978f, -0.00034229696f, -0.000341942388f, -0.000341576262f,
 -0.00034119864f, -0.000340809522f, -0.000340408908f, -0.000339996885f, -0.000339573453f, -0.000339138613f, -0.000338692451f, -0.000338234939f,
 -0.000337766134f, -0.000337286066f, -0.000336794765f, -0.000336292258f, -0.000335778575f, -0.000335253717f, -0.00033471777f, -0.000334170734f,
 -0.000333612668f, -0.000333043543f, -0.000332463445f, -0.000331872405f, -0.000331270421f, -0.000330657582f, -0.000330033858f, -0.000329399336f,
 -0.000328754017f, -0.000328097958f, -0.00032743116f, -0.00032675371f, -0.000326065609f, -0.000325366884f, -0.000324657594f, -0.000323937798f,
 -0.000323207496f, -0.000322466716f, -0.000321715517f, -0.000320953957f, -0.000320182036f, -0.000319399813f, -0.000318607345f, -0.000317804632f,
 -0.000316991733f, -0.000316168676f, -0.00031533555f, -0.000314492325f, -0.000313639088f, -0.000312775868f, -0.000311902695f, -0.000311019656f,
 -0.000310126721f, -0.000309224008f, -0.000308311515f, -0.000307389273f, -0.000306457368f, -0.000305515801f, -0.000304564659f, -0.000303603971f,
 -0.000302633765f, -0.000301654101f, -0.000300665008f, -0.000299666543f, -0.000298658764f, -0.000297641702f, -0.000296615384f, -0.000295579899f,
 -0.000294535275f, -0.000293481571f, -0.000292418787f, -0.000291347038f, -0.000290266325f, -0.000289176707f, -0.000288078241f, -0.000286970957f,
 -0.000285854941f, -0.000284730195f, -0.000283596804f, -0.000282454799f, -0.000281304237f, -0.000280145177f, -0.000278977648f, -0.000277801708f,
 -0.000276617415f, -0.000275424827f, -0.000274223974f, -0.000273014943f, -0.000271797733f, -0.000270572462f, -0.0002693391f, -0.000268097763f,
 -0.00026684851f, -0.000265591341f, -0.000264326343f, -0.000263053575f, -0.000261773064f, -0.0002604849f, -0.000259189081f, -0.000257885724f,
 -0.000256574858f, -0.000255256542f, -0.000253930804f, -0.000252597732f, -0.000251257356f, -0.000249909761f, -0.000248554978f, -0.000247193064f,
 -0.000245824078f, -0.000244448078f, -0.000243065151f, -0.000241675298f, -0.000240278619f, -0.000238875145f, -0.000237464934f, -0.000236048058f,
 -0.000234624575f, -0.000233194529f, -0.000231757978f, -0.000230314996f, -0.000228865625f, -0.000227409924f, -0.000225947966f, -0.000224479794f,
 -0.000223005482f, -0.000221525072f, -0.000220038623f, -0.000218546207f, -0.000217047884f, -0.000215543711f, -0.000214033731f, -0.000212518018f,
 -0.00021099663f, -0.000209469625f, -0.000207937061f, -0.00020639901f, -0.000204855533f, -0.00020330667f, -0.000201752482f, -0.000200193055f,
 -0.000198628433f, -0.000197058689f, -0.000195483852f, -0.000193904023f, -0.000192319247f, -0.000190729566f, -0.000189135084f, -0.000187535814f,
 -0.000185931858f, -0.000184323246f, -0.000182710064f, -0.000181092371f, -0.000179470211f, -0.000177843671f, -0.000176212794f, -0.000174577639f,
 -0.000172938293f, -0.000171294785f, -0.000169647203f, -0.000167995604f, -0.000166340047f, -0.000164680605f, -0.000163017321f, -0.000161350268f,
 -0.000159679505f, -0.000158005118f, -0.000156327136f, -0.000154645633f, -0.000152960682f, -0.000151272339f, -0.000149580679f, -0.000147885745f,
 -0.000146187609f, -0.00014448633f, -0.000142781995f, -0.000141074634f, -0.000139364318f, -0.000137651135f, -0.000135935115f, -0.000134216345f,
 -0.000132494883f, -0.000130770786f, -0.000129044129f, -0.000127314968f, -0.000125583363f, -0.000123849371f, -0.000122113081f, -0.000120374541f,
 -0.000118633812f, -0.000116890958f, -0.000115146046f, -0.000113399139f, -0.000111650304f, -0.0001098996f, -0.000108147091f, -0.000106392843f,
 -0.000104636914f, -0.00010287937f, -0.000101120284f, -9.93597059e-05f, -9.75977091e-05f, -9.58343444e-05f, -9.40696918e-05f, -9.23038024e-05f,
 -9.05367488e-05f, -8.87685819e-05f, -8.69993746e-05f, -8.52291923e-05f, -8.3458086e-05f, -8.16861357e-05f, -7.9913385e-05f, -7.8139914e-05f,
 -7.63657808e-05f, -7.45910438e-05f, -7.28157684e-05f, -7.104002e-05f, -6.92638641e-05f, -6.74873518e-05f, -6.57105556e-05f, -6.3933534e-05f,
 -6.21563522e-05f, -6.03790722e-05f, -5.86017559e-05f, -5.6824465e-05f, -5.50472614e-05f, -5.32702106e-05f, -5.14933708e-05f, -4.97168076e-05f,
 -4.79405826e-05f, -4.61647542e-05f, -4.43893841e-05f, -4.26145416e-05f, -4.08402811e-05f, -3.90666646e-05f, -3.72937575e-05f, -3.55216143e-05f,
 -3.37503043e-05f, -3.19798855e-05f, -3.02104181e-05f, -2.84419639e-05f, -2.66745828e-05f, -2.49083369e-05f, -2.31432859e-05f, -2.13794901e-05f,
 -1.96170113e-05f, -1.78559094e-05f, -1.60962427e-05f, -1.43380721e-05f, -1.25814586e-05f, -1.08264621e-05f, -9.07314097e-06f, -7.32155559e-06f,
 -5.57176509e-06f, -3.82382859e-06f, -2.0778059e-06f, -3.33755565e-07f, 1.40826342e-06f, 3.14819249e-06f, 4.88597288e-06f, 6.62154616e-06f,
 8.35485389e-06f, 1.00858379e-05f, 1.18144408e-05f, 1.35406044e-05f, 1.52642697e-05f, 1.69853811e-05f, 1.87038804e-05f, 2.04197113e-05f,
 2.21328137e-05f, 2.38431348e-05f, 2.55506147e-05f, 2.72551988e-05f, 2.89568288e-05f, 3.06554502e-05f, 3.23510067e-05f, 3.40434417e-05f,
 3.57327008e-05f, 3.74187257e-05f, 3.91014619e-05f, 4.07808548e-05f, 4.24568534e-05f, 4.4129396e-05f, 4.57984315e-05f, 4.74639055e-05f,
 4.91257633e-05f, 5.07839504e-05f, 5.24384159e-05f, 5.40891015e-05f, 5.57359563e-05f, 5.73789257e-05f, 5.90179552e-05f, 6.06529975e-05f,
 6.22839943e-05f, 6.39108985e-05f, 6.55336553e-05f, 6.71522066e-05f, 6.87665088e-05f, 7.03765108e-05f, 7.19821473e-05f, 7.35833892e-05f,
 7.51801708e-05f, 7.67724414e-05f, 7.83601572e-05f, 7.99432601e-05f, 8.15217063e-05f, 8.30954377e-05f, 8.4664418e-05f, 8.62285888e-05f,
 8.77878992e-05f, 8.93423057e-05f, 9.08917573e-05f, 9.2436203e-05f, 9.39755992e-05f, 9.55098949e-05f, 9.70390392e-05f, 9.85629886e-05f,
 0.000100081699f, 0.00010159512f, 0.000103103201f, 0.000104605897f, 0.000106103165f, 0.000107594955f, 0.000109081229f, 0.00011056193f,
 0.000112037022f, 0.000113506452f, 0.000114970178f, 0.000116428157f, 0.00011788035f, 0.000119326702f, 0.000120767174f, 0.000122201716f,
 0.000123630307f, 0.000125052873f, 0.000126469386f, 0.000127879815f, 0.00012928409f, 0.000130682194f, 0.000132074085f, 0.000133459704f,
 0.000134839021f, 0.000136211995f, 0.000137578565f, 0.000138938733f, 0.000140292424f, 0.000141639597f, 0.000142980236f, 0.000144314297f,
 0.000145641723f, 0.000146962484f, 0.000148276551f, 0.000149583866f, 0.000150884414f, 0.000152178138f, 0.000153465022f, 0.000154745008f,
 0.000156018068f, 0.000157284157f, 0.000158543262f, 0.000159795323f, 0.000161040312f, 0.000162278186f, 0.000163508928f, 0.000164732497f,
 0.000165948863f, 0.000167157967f, 0.000168359795f, 0.000169554318f, 0.000170741492f, 0.000171921289f, 0.000173093678f, 0.000174258617f,
 0.000175416091f, 0.000176566042f, 0.000177708469f, 0.000178843315f, 0.000179970564f, 0.000181090189f, 0.000182202144f, 0.000183306402f,
 0.000184402947f, 0.00018549175f, 0.000186572754f, 0.000187645957f, 0.000188711332f, 0.000189768834f, 0.000190818449f, 0.000191860134f,
 0.000192893887f, 0.000193919652f, 0.000194937413f, 0.000195947156f, 0.000196948851f, 0.000197942456f, 0.00019892797f, 0.000199905349f,
 0.000200874565f, 0.000201835617f, 0.000202788462f, 0.000203733085f, 0.000204669457f, 0.000205597549f, 0.000206517347f, 0.000207428835f,
 0.000208331985f, 0.000209226768f, 0.000210113183f, 0.000210991173f, 0.000211860752f, 0.000212721876f, 0.000213574545f, 0.000214418731f,
 0.000215254404f, 0.000216081549f, 0.000216900167f, 0.000217710214f, 0.000218511675f, 0.000219304551f, 0.000220088798f, 0.000220864415f,
 0.000221631388f, 0.000222389703f, 0.00022313933f, 0.000223880255f, 0.000224612464f, 0.000225335942f, 0.000226050688f, 0.00022675666f,
 0.000227453871f, 0.000228142279f, 0.000228821897f, 0.000229492711f, 0.000230154677f, 0.000230807811f, 0.000231452097f, 0.000232087506f,
 0.000232714054f, 0.00023333171f, 0.00023394046f, 0.000234540305f, 0.000235131229f, 0.000235713218f, 0.000236286272f, 0.000236850377f,
 0.000237405518f, 0.000237951695f, 0.000238488894f, 0.000239017114f, 0.000239536341f, 0.00024004656f, 0.000240547786f, 0.00024103999f,
 0.000241523172f, 0.000241997332f, 0.000242462454f, 0.000242918555f, 0.00024336559f, 0.000243803588f, 0.000244232535f, 0.000244652416f,
 0.000245063246f, 0.000245465024f, 0.000245857722f, 0.000246241339f, 0.000246615906f, 0.000246981392f, 0.000247337768f, 0.000247685093f,
 0.000248023338f, 0.000248352502f, 0.000248672586f, 0.00024898359f, 0.000249285484f, 0.000249578326f, 0.00024986206f, 0.000250136742f,
 0.000250402343f, 0.000250658835f, 0.000250906276f, 0.000251144636f, 0.000251373916f, 0.000251594145f, 0.000251805293f, 0.00025200739f,
 0.000252200436f, 0.000252384401f, 0.000252559345f, 0.000252725236f, 0.000252882077f, 0.000253029895f, 0.000253168662f, 0.000253298436f,
 0.000253419159f, 0.000253530889f, 0.000253633625f, 0.000253727369f, 0.00025381209f, 0.000253887847f, 0.00025395464f, 0.00025401247f,
 0.000254061335f, 0.000254101265f, 0.000254132232f, 0.000254154293f, 0.000254167418f, 0.000254171668f, 0.000254166982f, 0.00025415342f,
 0.00025413101f, 0.000254099723f, 0.00025405956f, 0.000254010578f, 0.000253952778f, 0.00025388613f, 0.000253810693f, 0.000253726495f,
 0.00025363348f, 0.000253531733f, 0.000253421225f, 0.000253301987f, 0.000253174047f, 0.000253037375f, 0.00025289203f, 0.000252738013f,
 0.000252575323f, 0.000252404017f, 0.000252224068f, 0.000252035534f, 0.000251838384f, 0.000251632679f, 0.000251418387f, 0.000251195597f,
 0.00025096428f, 0.000250724435f, 0.000250476121f, 0.000250219338f, 0.000249954144f, 0.000249680481f, 0.000249398436f, 0.000249108009f,
 0.0002488092f, 0.000248502038f, 0.000248186581f, 0.000247862801f, 0.000247530756f, 0.000247190444f, 0.000246841897f, 0.000246485113f,
 0.000246120151f, 0.000245747011f, 0.000245365751f, 0.000244976341f, 0.000244578841f, 0.00024417325f, 0.000243759627f, 0.000243337956f,
 0.000242908296f, 0.000242470647f, 0.000242025038f, 0.000241571513f, 0.000241110072f, 0.000240640758f, 0.000240163587f, 0.0002396786f,
 0.0002391858f, 0.000238685243f, 0.00023817693f, 0.000237660905f, 0.000237137181f, 0.000236605789f, 0.000236066771f, 0.000235520143f,
 0.000234965948f, 0.000234404186f, 0.0002338349f, 0.000233258135f, 0.000232673905f, 0.000232082239f, 0.000231483165f, 0.000230876714f,
 0.000230262929f, 0.000229641824f, 0.000229013443f, 0.000228377801f, 0.000227734941f, 0.000227084893f, 0.000226427699f, 0.000225763361f,
 0.000225091935f, 0.000224413452f, 0.00022372794f, 0.000223035429f, 0.000222335948f, 0.00022162954f, 0.000220916234f, 0.00022019606f,
 0.000219469061f, 0.000218735251f, 0.00021799469f, 0.000217247405f, 0.000216493412f, 0.000215732769f, 0.000214965505f, 0.000214191634f,
 0.000213411229f, 0.000212624291f, 0.000211830862f, 0.000211031002f, 0.000210224724f, 0.000209412057f, 0.000208593061f, 0.000207767764f,
 0.000206936194f, 0.000206098397f, 0.0002052544f, 0.000204404249f, 0.000203547985f, 0.000202685638f, 0.000201817253f, 0.000200942857f,
 0.000200062481f, 0.000199176196f, 0.000198284004f, 0.000197385976f, 0.000196482113f, 0.000195572487f, 0.000194657128f, 0.000193736065f,
 0.000192809341f, 0.000191877014f, 0.000190939099f, 0.000189995641f, 0.000189046681f, 0.000188092265f, 0.000187132435f, 0.000186167221f,
 0.000185196666f, 0.000184220829f, 0.000183239725f, 0.000182253396f, 0.000181261901f, 0.00018026527f, 0.000179263545f, 0.000178256771f,
 0.00017724499f, 0.000176228234f, 0.000175206558f, 0.000174179993f, 0.000173148583f, 0.00017211237f, 0.000171071413f, 0.000170025727f,
 0.00016897537f, 0.000167920385f, 0.000166860817f, 0.000165796693f, 0.000164728073f, 0.000163654986f, 0.000162577489f, 0.000161495627f,
 0.000160409429f, 0.000159318937f, 0.000158224211f, 0.00015712528f, 0.000156022201f, 0.000154915004f, 0.000153803732f, 0.000152688459f,
 0.000151569184f, 0.00015044598f, 0.00014931889f, 0.000148187959f, 0.000147053215f, 0.000145914717f, 0.000144772508f, 0.000143626618f,
 0.000142477118f, 0.000141324039f, 0.000140167424f, 0.000139007316f, 0.000137843759f, 0.000136676812f, 0.000135506503f, 0.000134332891f,
 0.00013315602f, 0.000131975918f, 0.000130792658f, 0.000129606255f, 0.000128416781f, 0.000127224266f, 0.000126028768f, 0.000124830316f,
 0.000123628968f, 0.000122424768f, 0.000121217767f, 0.000120007993f, 0.000118795506f, 0.000117580355f, 0.000116362571f, 0.000115142211f,
 0.000113919326f, 0.000112693946f, 0.000111466128f, 0.000110235924f, 0.000109003362f, 0.000107768501f, 0.000106531392f, 0.000105292071f,
 0.000104050581f, 0.000102806982f, 0.000101561309f, 0.000100313606f, 9.90639383e-05f, 9.7812328e-05f, 9.65588406e-05f, 9.53035124e-05f,
 9.40463869e-05f, 9.27875226e-05f, 9.15269557e-05f, 9.02647371e-05f, 8.90009105e-05f, 8.77355269e-05f, 8.64686226e-05f, 8.52002559e-05f,
 8.39304703e-05f, 8.26593023e-05f, 8.13868101e-05f, 8.01130373e-05f, 7.88380275e-05f, 7.75618246e-05f, 7.62844793e-05f, 7.50060426e-05f,
 7.37265509e-05f, 7.24460551e-05f, 7.11646062e-05f, 6.98822405e-05f, 6.8599009e-05f, 6.73149552e-05f, 6.60301303e-05f, 6.47445777e-05f,
 6.34583484e-05f, 6.21714789e-05f, 6.08840201e-05f, 5.95960191e-05f, 5.83075198e-05f, 5.70185694e-05f, 5.57292115e-05f, 5.4439497e-05f,
 5.31494661e-05f, 5.18591696e-05f, 5.05686476e-05f, 4.92779473e-05f, 4.79871196e-05f, 4.66962047e-05f, 4.54052461e-05f, 4.41142947e-05f,
 4.28233943e-05f, 4.15325885e-05f, 4.02419209e-05f, 3.89514425e-05f, 3.76611933e-05f, 3.63712206e-05f, 3.50815717e-05f, 3.37922829e-05f,
 3.25034089e-05f, 3.12149896e-05f, 2.99270723e-05f, 2.86396989e-05f, 2.73529149e-05f, 2.60667639e-05f, 2.47812932e-05f, 2.34965446e-05f,
 2.22125618e-05f, 2.09293921e-05f, 1.96470774e-05f, 1.83656612e-05f, 1.70851872e-05f, 1.58057028e-05f, 1.4527247e-05f, 1.32498662e-05f,
 1.19736042e-05f, 1.06985035e-05f, 9.42460701e-06f, 8.15195926e-06f, 6.88060209e-06f, 5.61058005e-06f, 4.34193498e-06f, 3.07471032e-06f,
 1.80894881e-06f, 5.44692853e-07f, -7.18014803e-07f, -1.97913164e-06f, -3.23861559e-06f, -4.49642403e-06f, -5.75251534e-06f, -7.00684677e-06f,
 -8.25937695e-06f, -9.51006405e-06f, -1.07588658e-05f, -1.20057421e-05f, -1.32506502e-05f, -1.44935484e-05f, -1.57343966e-05f, -1.69731538e-05f,
 -1.82097792e-05f, -1.94442309e-05f, -2.06764671e-05f, -2.19064514e-05f, -2.31341401e-05f, -2.43594932e-05f, -2.55824707e-05f, -2.68030326e-05f,
 -2.80211407e-05f, -2.92367531e-05f, -3.04498299e-05f, -3.16603328e-05f, -3.28682218e-05f, -3.40734587e-05f, -3.52760071e-05f, -3.64758198e-05f,
 -3.7672864e-05f, -3.88671033e-05f, -4.00584904e-05f, -4.12469963e-05f, -4.24325808e-05f, -4.36152004e-05f, -4.47948223e-05f, -4.59714065e-05f,
 -4.71449166e-05f, -4.83153162e-05f, -4.94825654e-05f, -5.06466313e-05f, -5.18074703e-05f, -5.29650497e-05f, -5.41193331e-05f, -5.52702841e-05f,
 -5.64178663e-05f, -5.75620434e-05f, -5.87027753e-05f, -5.98400329e-05f, -6.09737763e-05f, -6.21039726e-05f, -6.32305819e-05f, -6.4353575e-05f,
 -6.54729156e-05f, -6.65885673e-05f, -6.77004937e-05f, -6.88086584e-05f, -6.99130396e-05f, -7.10135864e-05f, -7.2110277e-05f, -7.32030749e-05f,
 -7.42919437e-05f, -7.53768545e-05f, -7.64577708e-05f, -7.75346562e-05f, -7.86074888e-05f, -7.96762179e-05f, -8.07408287e-05f, -8.1801285e-05f,
 -8.28575503e-05f, -8.39095956e-05f, -8.49573844e-05f, -8.60008877e-05f, -8.70400763e-05f, -8.80749212e-05f, -8.9105386e-05f, -9.01314415e-05f,
 -9.11530587e-05f, -9.21702085e-05f, -9.31828545e-05f, -9.41909675e-05f, -9.51945258e-05f, -9.61935002e-05f, -9.71878471e-05f, -9.8177552e-05f,
 -9.91625784e-05f, -0.000100142897f, -0.000101118487f, -0.000102089311f, -0.000103055339f, -0.000104016559f, -0.000104972925f, -0.000105924417f,
 -0.000106871012f, -0.000107812673f, -0.000108749387f, -0.00010968111f, -0.000110607827f, -0.000111529509f, -0.000112446134f, -0.000113357666f,
 -0.00011426409f, -0.000115165378f, -0.000116061499f, -0.000116952426f, -0.00011783815f, -0.000118718628f, -0.000119593846f, -0.000120463781f,
 -0.000121328398f, -0.000122187688f, -0.000123041624f, -0.00012389016f, -0.000124733313f, -0.000125571023f, -0.000126403291f, -0.000127230087f,
 -0.000128051397f, -0.000128867177f, -0.000129677428f, -0.00013048212f, -0.000131281224f, -0.000132074725f, -0.000132862609f, -0.000133644848f,
 -0.000134421425f, -0.000135192313f, -0.000135957496f, -0.000136716961f, -0.000137470677f, -0.000138218631f, -0.000138960808f, -0.000139697178f,
 -0.000140427728f, -0.000141152443f, -0.000141871307f, -0.000142584293f, -0.000143291385f, -0.000143992569f, -0.00014468783f, -0.000145377155f,
 -0.000146060513f, -0.00014673789f, -0.000147409286f, -0.000148074658f, -0.00014873402f, -0.000149387328f, -0.000150034582f, -0.000150675769f,
 -0.000151310873f, -0.000151939879f, -0.000152562774f, -0.000153179528f, -0.000153790141f, -0.000154394598f, -0.000154992886f, -0.000155584989f,
 -0.000156170907f, -0.000156750597f, -0.000157324073f, -0.000157891322f, -0.000158452312f, -0.000159007061f, -0.000159555522f, -0.000160097712f,
 -0.000160633601f, -0.000161163189f, -0.000161686476f, -0.000162203418f, -0.000162714045f, -0.000163218312f, -0.000163716235f, -0.000164207784f,
 -0.000164692974f, -0.000165171776f, -0.000165644175f, -0.000166110185f, -0.000166569793f, -0.000167022983f, -0.000167469741f, -0.000167910068f,
 -0.000168343962f, -0.00016877141f, -0.000169192397f, -0.000169606938f, -0.000170015002f, -0.000170416606f, -0.00017081172f, -0.000171200358f,
 -0.000171582506f, -0.000171958149f, -0.000172327302f, -0.00017268995f, -0.000173046094f, -0.000173395718f, -0.000173738823f, -0.000174075409f,
 -0.000174405475f, -0.000174729008f, -0.000175046021f, -0.000175356487f, -0.000175660418f, -0.000175957815f, -0.000176248665f, -0.00017653298f,
 -0.000176810747f, -0.000177081965f, -0.000177346636f, -0.000177604757f, -0.000177856346f, -0.000178101356f, -0.000178339833f, -0.000178571761f,
 -0.000178797141f, -0.000179015959f, -0.000179228227f, -0.000179433962f, -0.000179633134f, -0.000179825773f, -0.000180011863f, -0.000180191404f,
 -0.000180364412f, -0.000180530871f, -0.000180690811f, -0.000180844203f, -0.000180991061f, -0.0001811314f, -0.000181265219f, -0.000181392519f,
 -0.000181513285f, -0.000181627562f, -0.000181735304f, -0.000181836556f, -0.000181931318f, -0.000182019576f, -0.000182101343f, -0.00018217662f,
 -0.000182245436f, -0.000182307762f, -0.000182363627f, -0.00018241303f, -0.000182455988f, -0.000182492498f, -0.000182522563f, -0.000182546195f,
 -0.000182563395f, -0.000182574193f, -0.000182578573f, -0.000182576536f, -0.000182568125f, -0.000182553325f, -0.000182532138f, -0.000182504591f,
 -0.000182470685f, -0.00018243042f, -0.000182383825f, -0.000182330885f, -0.000182271644f, -0.000182206073f, -0.000182134216f, -0.000182056072f,
 -0.000181971642f, -0.00018188094f, -0.00018178398f, -0.000181680778f, -0.000181571348f, -0.000181455689f, -0.000181333817f, -0.00018120576f,
 -0.000181071504f, -0.000180931078f, -0.000180784496f, -0.00018063176f, -0.000180472896f, -0.000180307921f, -0.00018013682f, -0.000179959636f,
 -0.000179776369f, -0.000179587048f, -0.00017939166f, -0.000179190247f, -0.000178982809f, -0.000178769376f, -0.000178549933f, -0.000178324524f,
 -0.000178093163f, -0.000177855851f, -0.000177612601f, -0.000177363443f, -0.000177108392f, -0.000176847461f, -0.000176580681f, -0.000176308036f,
 -0.000176029571f, -0.000175745299f, -0.000175455221f, -0.000175159366f, -0.000174857763f, -0.000174550412f, -0.000174237342f, -0.000173918568f,
 -0.000173594104f, -0.000173263979f, -0.000172928208f, -0.000172586806f, -0.000172239786f, -0.000171887179f, -0.000171529013f, -0.000171165273f,
 -0.000170796018f, -0.000170421248f, -0.000170040992f, -0.00016965525f, -0.00016926408f, -0.000168867467f, -0.000168465442f, -0.000168058032f,
 -0.000167645267f, -0.000167227146f, -0.0001668037f, -0.000166374972f, -0.000165940946f, -0.000165501668f, -0.00016505715f, -0.000164607423f,
 -0.000164152501f, -0.000163692428f, -0.000163227189f, -0.000162756842f, -0.000162281387f, -0.000161800868f, -0.000161315285f, -0.000160824682f,
 -0.000160329058f, -0.000159828473f, -0.000159322924f, -0.000158812443f, -0.000158297044f, -0.000157776769f, -0.000157251634f, -0.000156721668f,
 -0.000156186885f, -0.000155647329f, -0.000155103f, -0.000154553942f, -0.000154000169f, -0.000153441724f, -0.000152878609f, -0.000152310866f,
 -0.000151738524f, -0.000151161599f, -0.000150580119f, -0.000149994114f, -0.000149403597f, -0.000148808613f, -0.000148209176f, -0.000147605329f,
 -0.000146997074f, -0.000146384467f, -0.00014576751f, -0.000145146245f, -0.000144520687f, -0.00014389088f, -0.000143256839f, -0.000142618592f,
 -0.000141976183f, -0.000141329612f, -0.000140678938f, -0.00014002416f, -0.000139365322f, -0.000138702468f, -0.000138035597f, -0.000137364739f,
 -0.000136689952f, -0.000136011236f, -0.000135328635f, -0.000134642163f, -0.000133951879f, -0.000133257781f, -0.000132559901f, -0.000131858294f,
 -0.000131152963f, -0.00013044395f, -0.000129731285f, -0.000129014996f, -0.000128295098f, -0.00012757165f, -0.000126844665f, -0.000126114173f,
 -0.000125380204f, -0.0001246428f, -0.000123901977f, -0.000123157763f, -0.000122410216f, -0.00012165933f, -0.000120905155f, -0.000120147721f,
 -0.000119387056f, -0.000118623197f, -0.000117856165f, -0.000117085998f, -0.000116312731f, -0.000115536379f, -0.000114756993f, -0.000113974595f,
 -0.000113189213f, -0.000112400878f, -0.000111609632f, -0.000110815505f, -0.000110018518f, -0.000109218709f, -0.000108416112f, -0.000107610758f,
 -0.000106802676f, -0.000105991894f, -0.000105178457f, -0.000104362385f, -0.000103543716f, -0.000102722486f, -0.000101898717f, -0.000101072445f,
 -0.000100243706f, -9.94125367e-05f, -9.8578952e-05f, -9.77430027e-05f, -9.69047105e-05f, -9.60641119e-05f, -9.52212431e-05f, -9.43761261e-05f,
 -9.35288044e-05f, -9.26793073e-05f, -9.18276637e-05f, -9.09739101e-05f, -9.01180829e-05f, -8.92602038e-05f, -8.84003166e-05f, -8.7538443e-05f,
 -8.66746341e-05f, -8.58089043e-05f, -8.494129e-05f, -8.40718349e-05f, -8.32005608e-05f, -8.23275113e-05f, -8.14527084e-05f, -8.05761883e-05f,
 -7.96979948e-05f, -7.88181424e-05f, -7.79366746e-05f, -7.7053628e-05f, -7.61690317e-05f, -7.52829146e-05f, -7.43953133e-05f, -7.3506264e-05f,
 -7.26158032e-05f, -7.17239527e-05f, -7.08307489e-05f, -6.99362281e-05f, -6.90404268e-05f, -6.81433739e-05f, -6.72450988e-05f, -6.63456449e-05f,
 -6.54450341e-05f, -6.45433029e-05f, -6.36404948e-05f, -6.27366317e-05f, -6.18317426e-05f, -6.0925875e-05f, -6.00190542e-05f, -5.9111313e-05f,
 -5.82026878e-05f, -5.72932076e-05f, -5.63829053e-05f, -5.54718208e-05f, -5.45599796e-05f, -5.36474181e-05f, -5.27341726e-05f, -5.18202687e-05f,
 -5.09057463e-05f, -4.99906346e-05f, -4.90749662e-05f, -4.81587776e-05f, -4.72420979e-05f, -4.63249598e-05f, -4.54073997e-05f, -4.44894504e-05f,
 -4.35711408e-05f, -4.26525075e-05f, -4.17335832e-05f, -4.08143969e-05f, -3.98949851e-05f, -3.89753768e-05f, -3.80556085e-05f, -3.71357091e-05f,
 -3.62157152e-05f, -3.52956558e-05f, -3.43755673e-05f, -3.34554788e-05f, -3.25354231e-05f, -3.16154328e-05f, -3.06955408e-05f, -2.97757797e-05f,
 -2.88561805e-05f, -2.7936776e-05f, -2.70175988e-05f, -2.60986799e-05f, -2.51800502e-05f, -2.42617461e-05f, -2.3343795e-05f, -2.24262312e-05f,
 -2.15090859e-05f, -2.05923898e-05f, -1.96761757e-05f, -1.87604746e-05f, -1.78453192e-05f, -1.69307405e-05f, -1.6016771e-05f, -1.51034392e-05f,
 -1.41907785e-05f, -1.32788191e-05f, -1.23675936e-05f, -1.14571321e-05f, -1.05474664e-05f, -9.63862658e-06f, -8.73064437e-06f, -7.82354982e-06f,
 -6.91737432e-06f, -6.01214833e-06f, -5.10790278e-06f, -4.20466768e-06f, -3.30247394e-06f, -2.40135182e-06f, -1.50133189e-06f, -6.02444004e-07f,
 2.9528141e-07f, 1.19181436e-06f, 2.08712481e-06f, 2.98118289e-06f, 3.87395858e-06f, 4.76542255e-06f, 5.65554456e-06f, 6.54429505e-06f,
 7.43164537e-06f, 8.31756552e-06f, 9.20202547e-06f, 1.00849975e-05f, 1.09664506e-05f, 1.18463577e-05f, 1.27246885e-05f, 1.3601415e-05f,
 1.44765081e-05f, 1.53499386e-05f, 1.62216784e-05f, 1.70916992e-05f, 1.7959972e-05f, 1.88264694e-05f, 1.96911624e-05f, 2.05540236e-05f,
 2.14150241e-05f, 2.22741364e-05f, 2.31313334e-05f, 2.39865876e-05f, 2.48398701e-05f, 2.56911535e-05f, 2.65404124e-05f, 2.73876176e-05f,
 2.82327437e-05f, 2.90757616e-05f, 2.99166459e-05f, 3.07553673e-05f, 3.15919024e-05f, 3.24262255e-05f, 3.3258304e-05f, 3.40881197e-05f,
 3.49156398e-05f, 3.57408389e-05f, 3.65636952e-05f, 3.73841794e-05f, 3.82022663e-05f, 3.90179302e-05f, 3.98311495e-05f, 4.06418912e-05f,
 4.14501337e-05f, 4.22558551e-05f, 4.30590262e-05f, 4.38596217e-05f, 4.46576196e-05f, 4.54529945e-05f, 4.6245721e-05f, 4.70357736e-05f,
 4.78231304e-05f, 4.86077661e-05f, 4.9389655e-05f, 5.01687791e-05f, 5.09451056e-05f, 5.17186199e-05f, 5.2489293e-05f, 5.3257103e-05f,
 5.40220244e-05f, 5.47840391e-05f, 5.55431216e-05f, 5.62992464e-05f, 5.70523916e-05f, 5.78025392e-05f, 5.854966e-05f, 5.92937395e-05f,
 6.00347485e-05f, 6.07726688e-05f, 6.1507475e-05f, 6.22391526e-05f, 6.29676724e-05f, 6.36930126e-05f, 6.44151587e-05f, 6.51340815e-05f,
 6.58497665e-05f, 6.65621919e-05f, 6.72713359e-05f, 6.79771765e-05f, 6.8679692e-05f, 6.93788679e-05f, 7.0074675e-05f, 7.07670988e-05f,
 7.14561247e-05f, 7.21417236e-05f, 7.28238811e-05f, 7.35025751e-05f, 7.41777912e-05f, 7.48495004e-05f, 7.55176952e-05f, 7.61823467e-05f,
 7.68434402e-05f, 7.75009612e-05f, 7.81548879e-05f, 7.88051984e-05f, 7.94518855e-05f, 8.00949128e-05f, 8.07342803e-05f, 8.13699662e-05f,
 8.20019486e-05f, 8.26302057e-05f, 8.32547303e-05f, 8.38755077e-05f, 8.44925089e-05f, 8.51057266e-05f, 8.57151317e-05f, 8.63207242e-05f,
 8.69224823e-05f, 8.75203841e-05f, 8.81144224e-05f, 8.87045753e-05f, 8.92908283e-05f, 8.98731596e-05f, 9.04515691e-05f, 9.10260278e-05f,
 9.15965284e-05f, 9.21630563e-05f, 9.27255896e-05f, 9.32841212e-05f, 9.38386365e-05f, 9.43891137e-05f, 9.49355453e-05f, 9.54779171e-05f,
 9.60162142e-05f, 9.65504223e-05f, 9.70805268e-05f, 9.76065203e-05f, 9.81283883e-05f, 9.86461091e-05f, 9.91596826e-05f, 9.96690869e-05f,
 0.000100174315f, 0.000100675352f, 0.000101172183f, 0.000101664802f, 0.000102153193f, 0.00010263735f, 0.000103117251f, 0.000103592902f,
 0.000104064275f, 0.000104531362f, 0.000104994164f, 0.000105452658f, 0.000105906838f, 0.000106356689f, 0.00010680221f, 0.000107243388f,
 0.000107680215f, 0.000108112676f, 0.000108540757f, 0.000108964465f, 0.000109383778f, 0.00010979869f, 0.000110209192f, 0.000110615278f,
 0.00011101694f, 0.000111414163f, 0.000111806949f, 0.000112195281f, 0.000112579153f, 0.000112958565f, 0.000113333503f, 0.000113703958f,
 0.000114069924f, 0.000114431401f, 0.000114788374f, 0.000115140843f, 0.000115488794f, 0.000115832234f, 0.000116171141f, 0.000116505515f,
 0.000116835356f, 0.000117160649f, 0.000117481395f, 0.000117797586f, 0.000118109223f, 0.000118416297f, 0.000118718795f, 0.000119016731f,
 0.000119310083f, 0.000119598852f, 0.000119883036f, 0.000120162636f, 0.000120437639f, 0.00012070805f, 0.000120973855f, 0.000121235062f,
 0.000121491656f, 0.000121743644f, 0.000121991026f, 0.000122233789f, 0.000122471931f, 0.00012270546f, 0.000122934376f, 0.000123158665f,
 0.000123378326f, 0.00012359336f, 0.000123803766f, 0.000124009544f, 0.000124210696f, 0.000124407219f, 0.000124599101f, 0.000124786369f,
 0.000124968996f, 0.00012514698f, 0.000125320352f, 0.000125489081f, 0.000125653183f, 0.000125812643f, 0.000125967475f, 0.000126117695f,
 0.000126263272f, 0.000126404222f, 0.000126540544f, 0.000126672239f, 0.000126799321f, 0.000126921776f, 0.000127039602f, 0.000127152816f,
 0.000127261417f, 0.000127365405f, 0.00012746478f, 0.000127559557f, 0.000127649721f, 0.000127735286f, 0.000127816253f, 0.000127892621f,
 0.000127964391f, 0.000128031577f, 0.00012809418f, 0.000128152213f, 0.000128205662f, 0.000128254527f, 0.000128298838f, 0.000128338579f,
 0.000128373766f, 0.000128404397f, 0.000128430489f, 0.000128452026f, 0.000128469037f, 0.000128481508f, 0.000128489453f, 0.000128492888f,
 0.000128491796f, 0.000128486194f, 0.000128476095f, 0.000128461499f, 0.000128442422f, 0.000128418847f, 0.000128390806f, 0.000128358297f,
 0.000128321335f, 0.000128279906f, 0.000128234038f, 0.000128183732f, 0.000128128988f, 0.00012806982f, 0.000128006242f, 0.000127938256f,
 0.000127865875f, 0.000127789099f, 0.000127707957f, 0.000127622421f, 0.000127532534f, 0.000127438296f, 0.000127339707f, 0.000127236781f,
 0.000127129519f, 0.000127017964f, 0.000126902087f, 0.000126781917f, 0.000126657455f, 0.000126528714f, 0.000126395724f, 0.000126258456f,
 0.000126116953f, 0.000125971215f, 0.000125821258f, 0.000125667095f, 0.000125508712f, 0.000125346152f, 0.000125179417f, 0.000125008504f,
 0.000124833445f, 0.000124654223f, 0.000124470884f, 0.000124283426f, 0.000124091865f, 0.0001238962f, 0.00012369646f, 0.000123492646f,
 0.000123284772f, 0.000123072852f, 0.000122856916f, 0.00012263695f, 0.000122412981f, 0.000122185011f, 0.000121953075f, 0.000121717174f,
 0.000121477315f, 0.000121233526f, 0.000120985809f, 0.000120734185f, 0.00012047866f, 0.000120219265f, 0.000119955999f, 0.000119688877f,
 0.000119417928f, 0.000119143151f, 0.000118864562f, 0.000118582189f, 0.000118296033f, 0.000118006123f, 0.000117712458f, 0.000117415068f,
 0.000117113959f, 0.000116809155f, 0.000116500662f, 0.000116188501f, 0.000115872688f, 0.000115553245f, 0.000115230177f, 0.000114903509f,
 0.000114573253f, 0.000114239425f, 0.000113902039f, 0.000113561124f, 0.000113216687f, 0.000112868744f, 0.000112517315f, 0.000112162423f,
 0.000111804075f, 0.000111442292f, 0.00011107709f, 0.000110708497f, 0.000110336514f, 0.000109961169f, 0.000109582485f, 0.00010920046f,
 0.000108815133f, 0.000108426517f, 0.000108034619f, 0.000107639476f, 0.000107241089f, 0.000106839485f, 0.00010643468f, 0.000106026695f,
 0.000105615545f, 0.000105201252f, 0.00010478383f, 0.000104363309f, 0.000103939703f, 0.000103513026f, 0.000103083294f, 0.000102650542f,
 0.000102214777f, 0.000101776022f, 0.000101334299f, 0.000100889622f, 0.000100442019f, 9.99914992e-05f, 9.95380906e-05f, 9.9081808e-05f,
 9.86226732e-05f, 9.81607081e-05f, 9.76959345e-05f, 9.72283669e-05f, 9.67580345e-05f, 9.62849444e-05f, 9.58091259e-05f, 9.53306007e-05f,
 9.48493907e-05f, 9.43655104e-05f, 9.38789817e-05f, 9.33898191e-05f, 9.28980589e-05f, 9.24037158e-05f, 9.19068043e-05f, 9.14073535e-05f,
 9.09053852e-05f, 9.04009066e-05f, 8.98939543e-05f, 8.93845427e-05f, 8.88727009e-05f, 8.83584362e-05f, 8.7841785e-05f, 8.73227546e-05f,
 8.68013813e-05f, 8.62776724e-05f, 8.5751657e-05f, 8.52233643e-05f, 8.46928015e-05f, 8.41599976e-05f, 8.36249746e-05f, 8.3087747e-05f,
 8.25483512e-05f, 8.20068017e-05f, 8.14631203e-05f, 8.09173289e-05f, 8.0369442e-05f, 7.9819496e-05f, 7.92675128e-05f, 7.87134995e-05f,
 7.81574927e-05f, 7.75995068e-05f, 7.70395709e-05f, 7.64776996e-05f, 7.5913922e-05f, 7.534826e-05f, 7.47807353e-05f, 7.42113625e-05f,
 7.3640178e-05f, 7.30671964e-05f, 7.24924394e-05f, 7.19159289e-05f, 7.13377012e-05f, 7.07577565e-05f, 7.01761383e-05f, 6.95928611e-05f,
 6.90079469e-05f, 6.84214174e-05f, 6.78332945e-05f, 6.72436072e-05f, 6.66523774e-05f, 6.60596197e-05f, 6.54653704e-05f, 6.48696441e-05f,
 6.42724626e-05f, 6.3673855e-05f, 6.30738432e-05f, 6.24724416e-05f, 6.18696868e-05f, 6.12655931e-05f, 6.06601825e-05f, 6.0053484e-05f,
 5.94455159e-05f, 5.88363073e-05f, 5.82258763e-05f, 5.76142484e-05f, 5.70014454e-05f, 5.63874928e-05f, 5.57724088e-05f, 5.51562225e-05f,
 5.45389557e-05f, 5.39206303e-05f, 5.33012717e-05f, 5.26808981e-05f, 5.20595386e-05f, 5.1437215e-05f, 5.08139492e-05f, 5.01897666e-05f,
 4.95646855e-05f, 4.89387348e-05f, 4.83119366e-05f, 4.76843124e-05f, 4.70558844e-05f, 4.64266814e-05f, 4.57967217e-05f, 4.51660308e-05f,
 4.45346304e-05f, 4.39025462e-05f, 4.32697998e-05f, 4.26364131e-05f, 4.20024116e-05f, 4.13678172e-05f, 4.07326552e-05f, 4.00969438e-05f,
 3.94607123e-05f, 3.88239823e-05f, 3.81867758e-05f, 3.75491145e-05f, 3.69110239e-05f, 3.62725259e-05f, 3.56336423e-05f, 3.49944021e-05f,
 3.43548199e-05f, 3.37149249e-05f, 3.30747389e-05f, 3.24342836e-05f, 3.17935846e-05f, 3.11526601e-05f, 3.05115391e-05f, 2.9870238e-05f,
 2.92287841e-05f, 2.85871993e-05f, 2.79455071e-05f, 2.73037276e-05f, 2.66618863e-05f, 2.6020005e-05f, 2.53781072e-05f, 2.47362132e-05f,
 2.40943482e-05f, 2.34525342e-05f, 2.28107929e-05f, 2.2169148e-05f, 2.15276214e-05f, 2.08862366e-05f, 2.02450137e-05f, 1.96039764e-05f,
 1.89631464e-05f, 1.83225493e-05f, 1.76822032e-05f, 1.70421317e-05f, 1.64023586e-05f, 1.57629038e-05f, 1.51237919e-05f, 1.44850419e-05f,
 1.38466785e-05f, 1.32087225e-05f, 1.25711958e-05f, 1.19341203e-05f, 1.12975185e-05f, 1.06614116e-05f, 1.00258221e-05f, 9.39077108e-06f,
 8.75628029e-06f, 8.12237067e-06f, 7.48906541e-06f, 6.85638452e-06f, 6.22435027e-06f, 5.59298405e-06f, 4.96230678e-06f, 4.33234027e-06f,
 3.70310522e-06f, 3.07462324e-06f, 2.44691523e-06f, 1.82000258e-06f, 1.19390597e-06f, 5.68646556e-07f, -5.57548745e-08f, -6.79277377e-07f,
 -1.30190028e-06f, -1.92360267e-06f, -2.54436418e-06f, -3.1641639e-06f, -3.78298137e-06f, -4.40079612e-06f, -5.01758814e-06f, -5.63333651e-06f,
 -6.24802124e-06f, -6.86162184e-06f, -7.47411877e-06f, -8.08549157e-06f, -8.69571977e-06f, -9.30478382e-06f, -9.91266461e-06f, -1.05193412e-05f,
 -1.11247937e-05f, -1.17290037e-05f, -1.23319514e-05f, -1.29336158e-05f, -1.35339797e-05f, -1.4133022e-05f, -1.47307237e-05f, -1.53270648e-05f,
 -1.5922029e-05f, -1.65155943e-05f, -1.71077427e-05f, -1.76984558e-05f, -1.82877138e-05f, -1.88755002e-05f, -1.94617933e-05f, -2.00465747e-05f,
 -2.06298282e-05f, -2.12115337e-05f, -2.17916731e-05f, -2.23702282e-05f, -2.29471825e-05f, -2.35225143e-05f, -2.40962072e-05f, -2.46682448e-05f,
 -2.52386071e-05f, -2.58072778e-05f, -2.63742386e-05f, -2.69394714e-05f, -2.75029597e-05f, -2.80646836e-05f, -2.86246304e-05f, -2.91827782e-05f,
 -2.97391125e-05f, -3.02936151e-05f, -3.08462695e-05f, -3.13970559e-05f, -3.1945965e-05f, -3.24929715e-05f, -3.30380644e-05f, -3.35812256e-05f,
 -3.41224368e-05f, -3.46616835e-05f, -3.51989474e-05f, -3.57342142e-05f, -3.62674691e-05f, -3.67986941e-05f, -3.73278745e-05f, -3.78549921e-05f,
 -3.83800361e-05f, -3.89029847e-05f, -3.94238268e-05f, -3.99425444e-05f, -4.04591228e-05f, -4.09735476e-05f, -4.14858041e-05f, -4.19958778e-05f,
 -4.25037506e-05f, -4.30094078e-05f, -4.35128386e-05f, -4.40140284e-05f, -4.4512959e-05f, -4.50096159e-05f, -4.55039844e-05f, -4.59960575e-05f,
 -4.64858094e-05f, -4.69732367e-05f, -4.74583212e-05f, -4.79410483e-05f, -4.84214033e-05f, -4.88993755e-05f, -4.93749503e-05f, -4.98481168e-05f,
 -5.03188567e-05f, -5.07871591e-05f, -5.12530096e-05f, -5.17164008e-05f, -5.21773109e-05f, -5.26357362e-05f, -5.3091655e-05f, -5.35450636e-05f,
 -5.39959437e-05f, -5.44442846e-05f, -5.48900753e-05f, -5.53333011e-05f, -5.57739513e-05f, -5.62120149e-05f, -5.66474773e-05f, -5.70803313e-05f,
 -5.75105623e-05f, -5.79381594e-05f, -5.83631081e-05f, -5.87854047e-05f, -5.9205031e-05f, -5.96219797e-05f, -6.00362364e-05f, -6.04477937e-05f,
 -6.08566406e-05f, -6.12627628e-05f, -6.16661564e-05f, -6.2066807e-05f, -6.24647e-05f, -6.28598355e-05f, -6.32521915e-05f, -6.36417681e-05f,
 -6.4028558e-05f, -6.44125394e-05f, -6.4793705e-05f, -6.51720547e-05f, -6.55475669e-05f, -6.59202487e-05f, -6.62900711e-05f, -6.66570413e-05f,
 -6.70211448e-05f, -6.7382367e-05f, -6.77407079e-05f, -6.80961602e-05f, -6.84487022e-05f, -6.87983411e-05f, -6.9145055e-05f, -6.9488844e-05f,
 -6.98297008e-05f, -7.01676181e-05f, -7.05025814e-05f, -7.08345906e-05f, -7.11636312e-05f, -7.14897033e-05f, -7.18127922e-05f, -7.21328906e-05f,
 -7.24499987e-05f, -7.27641091e-05f, -7.30752072e-05f, -7.33832931e-05f, -7.36883594e-05f, -7.3990399e-05f, -7.42893972e-05f, -7.45853613e-05f,
 -7.48782841e-05f, -7.51681437e-05f, -7.54549546e-05f, -7.57386952e-05f, -7.60193652e-05f, -7.62969648e-05f, -7.65714867e-05f, -7.68429163e-05f,
 -7.71112609e-05f, -7.73765059e-05f, -7.76386441e-05f, -7.78976828e-05f, -7.81536146e-05f, -7.8406425e-05f, -7.86561213e-05f, -7.8902689e-05f,
 -7.9146128e-05f, -7.93864383e-05f, -7.96236127e-05f, -7.98576439e-05f, -8.00885318e-05f, -8.03162693e-05f, -8.05408563e-05f, -8.07622928e-05f,
 -8.09805715e-05f, -8.11956852e-05f, -8.14076338e-05f, -8.16164174e-05f, -8.1822036e-05f, -8.2024475e-05f, -8.22237416e-05f, -8.24198287e-05f,
 -8.26127362e-05f, -8.2802464e-05f, -8.2989005e-05f, -8.31723592e-05f, -8.33525264e-05f, -8.35294995e-05f, -8.37032785e-05f, -8.38738706e-05f,
 -8.40412686e-05f, -8.42054651e-05f, -8.43664675e-05f, -8.45242685e-05f, -8.4678868e-05f, -8.48302734e-05f, -8.49784701e-05f, -8.51234654e-05f,
 -8.52652665e-05f, -8.5403859e-05f, -8.553925e-05f, -8.56714323e-05f, -8.58004132e-05f, -8.59261927e-05f, -8.60487708e-05f, -8.61681474e-05f,
 -8.62843153e-05f, -8.63972818e-05f, -8.65070542e-05f, -8.66136179e-05f, -8.67169874e-05f, -8.68171555e-05f, -8.69141222e-05f, -8.70078948e-05f,
 -8.70984732e-05f, -8.71858574e-05f, -8.72700475e-05f, -8.73510435e-05f, -8.74288598e-05f, -8.75034821e-05f, -8.75749174e-05f, -8.76431732e-05f,
 -8.77082493e-05f, -8.77701386e-05f, -8.78288629e-05f, -8.78844003e-05f, -8.79367799e-05f, -8.79859799e-05f, -8.80320222e-05f, -8.80748921e-05f,
 -8.81146116e-05f, -8.8151166e-05f, -8.81845772e-05f, -8.82148306e-05f, -8.82419408e-05f, -8.82659078e-05f, -8.82867316e-05f, -8.83044195e-05f,
 -8.83189787e-05f, -8.83304165e-05f, -8.83387183e-05f, -8.83439134e-05f, -8.8345987e-05f, -8.83449466e-05f, -8.83408065e-05f, -8.83335597e-05f,
 -8.83232206e-05f, -8.83097891e-05f, -8.82932727e-05f, -8.82736713e-05f, -8.82509921e-05f, -8.82252425e-05f, -8.81964297e-05f, -8.81645537e-05f,
 -8.81296219e-05f, -8.80916414e-05f, -8.80506122e-05f, -8.80065563e-05f, -8.79594591e-05f, -8.79093423e-05f, -8.78562059e-05f, -8.78000501e-05f,
 -8.77408893e-05f, -8.76787308e-05f, -8.76135746e-05f, -8.75454352e-05f, -8.74743127e-05f, -8.74002217e-05f, -8.73231547e-05f, -8.72431337e-05f,
 -8.71601587e-05f, -8.70742369e-05f, -8.69853757e-05f, -8.68935895e-05f, -8.67988783e-05f, -8.67012495e-05f, -8.66007103e-05f, -8.64972753e-05f,
 -8.63909445e-05f, -8.62817324e-05f, -8.6169639e-05f, -8.60546788e-05f, -8.59368593e-05f, -8.58161948e-05f, -8.56926781e-05f, -8.55663311e-05f,
 -8.54371538e-05f, -8.53051606e-05f, -8.51703589e-05f, -8.50327633e-05f, -8.48923664e-05f, -8.47491974e-05f, -8.4603249e-05f, -8.44545357e-05f,
 -8.43030721e-05f, -8.41488582e-05f, -8.39919157e-05f, -8.38322449e-05f, -8.36698528e-05f, -8.35047613e-05f, -8.33369704e-05f, -8.31664875e-05f,
 -8.29933342e-05f, -8.28175107e-05f, -8.26390315e-05f, -8.24579038e-05f, -8.22741422e-05f, -8.20877467e-05f, -8.18987392e-05f, -8.17071341e-05f,
 -8.15129242e-05f, -8.13161314e-05f, -8.11167702e-05f, -8.09148478e-05f, -8.07103643e-05f, -8.05033487e-05f, -8.02938011e-05f, -8.00817288e-05f,
 -7.98671608e-05f, -7.96500826e-05f, -7.94305306e-05f, -7.92084975e-05f, -7.89840124e-05f, -7.8757068e-05f, -7.85276861e-05f, -7.82958814e-05f,
 -7.80616538e-05f, -7.78250251e-05f, -7.75860099e-05f, -7.73446081e-05f, -7.71008417e-05f, -7.68547179e-05f, -7.66062512e-05f, -7.63554563e-05f,
 -7.61023402e-05f, -7.58469178e-05f, -7.55891961e-05f, -7.5329197e-05f, -7.50669278e-05f, -7.48024031e-05f, -7.45356374e-05f, -7.4266638e-05f,
 -7.39954121e-05f, -7.37219889e-05f, -7.34463683e-05f, -7.31685723e-05f, -7.2888608e-05f, -7.260649e-05f, -7.23222256e-05f, -7.20358439e-05f,
 -7.17473376e-05f, -7.14567359e-05f, -7.11640459e-05f, -7.08692824e-05f, -7.05724597e-05f, -7.02735924e-05f, -6.99726806e-05f, -6.96697607e-05f,
 -6.93648253e-05f, -6.90579036e-05f, -6.87490028e-05f, -6.84381303e-05f, -6.8125315e-05f, -6.78105571e-05f, -6.74938783e-05f, -6.71752932e-05f,
 -6.68548091e-05f, -6.65324478e-05f, -6.62082166e-05f, -6.588213e-05f, -6.55542099e-05f, -6.52244635e-05f, -6.48929054e-05f, -6.45595574e-05f,
 -6.42244268e-05f, -6.38875281e-05f, -6.35488832e-05f, -6.32084921e-05f, -6.28663838e-05f, -6.25225657e-05f, -6.21770596e-05f, -6.18298654e-05f,
 -6.14810124e-05f, -6.1130515e-05f, -6.07783768e-05f, -6.04246197e-05f, -6.0069262e-05f, -5.97123108e-05f, -5.93537879e-05f, -5.89937044e-05f,
 -5.86320748e-05f, -5.82689172e-05f, -5.79042462e-05f, -5.75380727e-05f, -5.71704186e-05f, -5.68012947e-05f, -5.64307156e-05f, -5.60586996e-05f,
 -5.5685261e-05f, -5.53104146e-05f, -5.49341748e-05f, -5.45565599e-05f, -5.41775808e-05f, -5.37972555e-05f, -5.34156025e-05f, -5.30326324e-05f,
 -5.264836e-05f, -5.2262807e-05f, -5.18759844e-05f, -5.14879066e-05f, -5.10985919e-05f, -5.07080549e-05f, -5.03163137e-05f, -4.99233793e-05f,
 -4.95292734e-05f, -4.91340033e-05f, -4.87375946e-05f, -4.83400545e-05f, -4.79414011e-05f, -4.75416527e-05f, -4.71408239e-05f, -4.67389327e-05f,
 -4.63359902e-05f, -4.59320145e-05f, -4.55270201e-05f, -4.51210253e-05f, -4.47140446e-05f, -4.43060926e-05f, -4.38971874e-05f, -4.34873436e-05f,
 -4.30765795e-05f, -4.26649094e-05f, -4.22523444e-05f, -4.183891e-05f, -4.14246133e-05f, -4.10094763e-05f, -4.05935098e-05f, -4.01767356e-05f,
 -3.97591648e-05f, -3.93408154e-05f, -3.89217057e-05f, -3.85018466e-05f, -3.80812562e-05f, -3.76599528e-05f, -3.72379473e-05f, -3.68152614e-05f,
 -3.63919062e-05f, -3.59679034e-05f, -3.55432639e-05f, -3.51180024e-05f, -3.46921406e-05f, -3.42656931e-05f, -3.38386708e-05f, -3.34110955e-05f,
 -3.29829818e-05f, -3.25543442e-05f, -3.21251973e-05f, -3.16955593e-05f, -3.12654483e-05f, -3.08348754e-05f, -3.04038604e-05f, -2.99724161e-05f,
 -2.95405607e-05f, -2.91083106e-05f, -2.86756785e-05f, -2.82426827e-05f, -2.78093394e-05f, -2.7375665e-05f, -2.69416723e-05f, -2.65073795e-05f,
 -2.60728011e-05f, -2.56379535e-05f, -2.52028531e-05f, -2.47675162e-05f, -2.43319573e-05f, -2.38961911e-05f, -2.34602358e-05f, -2.30241058e-05f,
 -2.25878175e-05f, -2.21513856e-05f, -2.17148245e-05f, -2.12781542e-05f, -2.08413876e-05f, -2.04045391e-05f, -1.99676251e-05f, -1.95306638e-05f,
 -1.9093668e-05f, -1.86566522e-05f, -1.82196363e-05f, -1.77826314e-05f, -1.73456538e-05f, -1.69087216e-05f, -1.64718476e-05f, -1.60350464e-05f,
 -1.5598338e-05f, -1.51617323e-05f, -1.47252476e-05f, -1.42888985e-05f, -1.38527002e-05f, -1.34166676e-05f, -1.29808168e-05f, -1.25451625e-05f,
 -1.21097191e-05f, -1.16745032e-05f, -1.12395282e-05f, -1.08048107e-05f, -1.03703642e-05f, -9.93620506e-06f, -9.50234789e-06f, -9.06880632e-06f,
 -8.63559762e-06f, -8.20273453e-06f, -7.77023251e-06f, -7.33810657e-06f, -6.90637125e-06f, -6.47504157e-06f, -6.04413208e-06f, -5.61365687e-06f,
 -5.18363095e-06f, -4.75406932e-06f, -4.32498564e-06f, -3.8963949e-06f, -3.46831166e-06f, -3.04075002e-06f, -2.61372452e-06f, -2.18724927e-06f,
 -1.76133869e-06f, -1.33600702e-06f, -9.11268387e-07f, -4.87137072e-07f, -6.36271267e-08f, 3.59247394e-07f, 7.81472465e-07f, 1.20303412e-06f,
 1.62391837e-06f, 2.0441114e-06f, 2.46359923e-06f, 2.88236834e-06f, 3.30040461e-06f, 3.71769443e-06f, 4.13422458e-06f, 4.54998053e-06f,
 4.96494977e-06f, 5.37911774e-06f, 5.79247217e-06f, 6.2049985e-06f, 6.616684e-06f, 7.02751549e-06f, 7.43747887e-06f, 7.84656186e-06f,
 8.25475036e-06f, 8.66203209e-06f, 9.06839432e-06f, 9.4738225e-06f, 9.87830481e-06f, 1.02818285e-05f, 1.068438e-05f, 1.10859473e-05f,
 1.14865161e-05f, 1.18860762e-05f, 1.22846122e-05f, 1.26821142e-05f, 1.30785675e-05f, 1.34739603e-05f, 1.38682808e-05f, 1.42615163e-05f,
 1.46536549e-05f, 1.50446831e-05f, 1.54345889e-05f, 1.58233634e-05f, 1.621099e-05f, 1.65974579e-05f, 1.69827581e-05f, 1.73668741e-05f,
 1.77497986e-05f, 1.81315154e-05f, 1.8512017e-05f, 1.88912891e-05f, 1.92693224e-05f, 1.96461024e-05f, 2.00216182e-05f, 2.03958607e-05f,
 2.07688172e-05f, 2.11404749e-05f, 2.15108266e-05f, 2.18798559e-05f, 2.22475555e-05f, 2.26139146e-05f, 2.29789202e-05f, 2.33425617e-05f,
 2.3704828e-05f, 2.40657118e-05f, 2.44251969e-05f, 2.47832777e-05f, 2.51399397e-05f, 2.54951756e-05f, 2.58489727e-05f, 2.620132e-05f,
 2.65522103e-05f, 2.69016327e-05f, 2.72495745e-05f, 2.75960283e-05f, 2.79409815e-05f, 2.82844267e-05f, 2.8626353e-05f, 2.89667496e-05f,
 2.93056091e-05f, 2.96429189e-05f, 2.99786716e-05f, 3.03128563e-05f, 3.0645464e-05f, 3.09764873e-05f, 3.13059136e-05f, 3.16337355e-05f,
 3.19599421e-05f, 3.22845262e-05f, 3.26074805e-05f, 3.29287905e-05f, 3.32484524e-05f, 3.35664554e-05f, 3.38827922e-05f, 3.41974519e-05f,
 3.45104236e-05f, 3.48217036e-05f, 3.51312847e-05f, 3.54391523e-05f, 3.57453027e-05f, 3.60497252e-05f, 3.63524123e-05f, 3.66533568e-05f,
 3.69525515e-05f, 3.7249989e-05f, 3.75456548e-05f, 3.78395489e-05f, 3.81316604e-05f, 3.8421982e-05f, 3.87105065e-05f, 3.89972229e-05f,
 3.92821275e-05f, 3.95652169e-05f, 3.98464726e-05f, 4.01258985e-05f, 4.04034836e-05f, 4.06792169e-05f, 4.09530949e-05f, 4.12251138e-05f,
 4.14952628e-05f, 4.17635347e-05f, 4.20299257e-05f, 4.22944249e-05f, 4.25570288e-05f, 4.28177336e-05f, 4.30765285e-05f, 4.33334098e-05f,
 4.35883703e-05f, 4.38414027e-05f, 4.40925032e-05f, 4.43416648e-05f, 4.458888e-05f, 4.48341452e-05f, 4.50774569e-05f, 4.5318804e-05f,
 4.5558183e-05f, 4.57955903e-05f, 4.60310221e-05f, 4.62644675e-05f, 4.6495923e-05f, 4.67253849e-05f, 4.69528495e-05f, 4.71783096e-05f,
 4.74017615e-05f, 4.7623198e-05f, 4.78426155e-05f, 4.80600102e-05f, 4.82753749e-05f, 4.84887096e-05f, 4.8700007e-05f, 4.89092636e-05f,
 4.91164719e-05f, 4.93216321e-05f, 4.95247405e-05f, 4.97257897e-05f, 4.99247762e-05f, 5.01216964e-05f, 5.03165465e-05f, 5.0509323e-05f,
 5.07000223e-05f, 5.08886405e-05f, 5.10751779e-05f, 5.12596234e-05f, 5.14419808e-05f, 5.16222426e-05f, 5.1800409e-05f, 5.19764726e-05f,
 5.21504335e-05f, 5.2322288e-05f, 5.24920324e-05f, 5.26596668e-05f, 5.2825184e-05f, 5.29885838e-05f, 5.31498663e-05f, 5.33090242e-05f,
 5.34660576e-05f, 5.36209627e-05f, 5.37737396e-05f, 5.39243847e-05f, 5.40728979e-05f, 5.4219272e-05f, 5.43635106e-05f, 5.450561e-05f,
 5.46455703e-05f, 5.47833843e-05f, 5.49190554e-05f, 5.50525838e-05f, 5.51839585e-05f, 5.53131904e-05f, 5.54402686e-05f, 5.55651968e-05f,
 5.5687975e-05f, 5.58085994e-05f, 5.59270666e-05f, 5.604338e-05f, 5.61575398e-05f, 5.62695386e-05f, 5.63793838e-05f, 5.64870716e-05f,
 5.65925984e-05f, 5.66959679e-05f, 5.67971765e-05f, 5.68962278e-05f, 5.69931181e-05f, 5.7087851e-05f, 5.71804194e-05f, 5.72708341e-05f,
 5.73590842e-05f, 5.74451769e-05f, 5.75291124e-05f, 5.76108869e-05f, 5.7690504e-05f, 5.77679639e-05f, 5.78432664e-05f, 5.79164116e-05f,
 5.79874031e-05f, 5.80562373e-05f, 5.81229178e-05f, 5.81874447e-05f, 5.82498214e-05f, 5.83100482e-05f, 5.83681212e-05f, 5.84240479e-05f,
 5.84778281e-05f, 5.8529462e-05f, 5.85789494e-05f, 5.86262977e-05f, 5.86715032e-05f, 5.87145696e-05f, 5.87554969e-05f, 5.87942923e-05f,
 5.88309485e-05f, 5.88654766e-05f, 5.88978764e-05f, 5.89281444e-05f, 5.89562878e-05f, 5.89823103e-05f, 5.90062118e-05f, 5.9027996e-05f,
 5.90476629e-05f, 5.90652162e-05f, 5.90806594e-05f, 5.90939962e-05f, 5.91052267e-05f, 5.91143544e-05f, 5.91213829e-05f, 5.9126316e-05f,
 5.91291573e-05f, 5.91299067e-05f, 5.9128568e-05f, 5.91251483e-05f, 5.91196476e-05f, 5.91120734e-05f, 5.91024218e-05f, 5.90907002e-05f,
 5.90769159e-05f, 5.90610689e-05f, 5.90431628e-05f, 5.90232012e-05f, 5.90011878e-05f, 5.89771298e-05f, 5.89510273e-05f, 5.89228875e-05f,
 5.88927142e-05f, 5.88605071e-05f, 5.88262774e-05f, 5.87900249e-05f, 5.87517534e-05f, 5.87114737e-05f, 5.86691822e-05f, 5.86248862e-05f,
 5.85785929e-05f, 5.8530306e-05f, 5.84800327e-05f, 5.84277695e-05f, 5.83735309e-05f, 5.83173169e-05f, 5.8259131e-05f, 5.81989843e-05f,
 5.81368768e-05f, 5.80728192e-05f, 5.80068081e-05f, 5.79388579e-05f, 5.78689651e-05f, 5.77971441e-05f, 5.77233986e-05f, 5.76477287e-05f,
 5.75701451e-05f, 5.7490648e-05f, 5.74092519e-05f, 5.73259567e-05f, 5.72407698e-05f, 5.71536948e-05f, 5.70647426e-05f, 5.69739168e-05f,
 5.68812211e-05f, 5.67866664e-05f, 5.66902563e-05f, 5.65919945e-05f, 5.64918919e-05f, 5.63899557e-05f, 5.6286186e-05f, 5.61805937e-05f,
 5.6073186e-05f, 5.59639702e-05f, 5.585295e-05f, 5.57401327e-05f, 5.56255291e-05f, 5.55091392e-05f, 5.5390974e-05f, 5.52710408e-05f,
 5.51493467e-05f, 5.50258992e-05f, 5.49007018e-05f, 5.47737654e-05f, 5.46450938e-05f, 5.45146977e-05f, 5.43825845e-05f, 5.42487578e-05f,
 5.41132285e-05f, 5.3976004e-05f, 5.38370914e-05f, 5.36964944e-05f, 5.35542276e-05f, 5.34102946e-05f, 5.32647027e-05f, 5.31174592e-05f,
 5.29685749e-05f, 5.28180572e-05f, 5.26659096e-05f, 5.25121468e-05f, 5.23567724e-05f, 5.21997936e-05f, 5.20412214e-05f, 5.1881063e-05f,
 5.17193257e-05f, 5.15560168e-05f, 5.13911509e-05f, 5.12247279e-05f, 5.10567588e-05f, 5.08872545e-05f, 5.07162222e-05f, 5.05436728e-05f,
 5.03696065e-05f, 5.01940413e-05f, 5.00169808e-05f, 4.98384361e-05f, 4.96584144e-05f, 4.94769229e-05f, 4.92939726e-05f, 4.91095743e-05f,
 4.89237318e-05f, 4.87364559e-05f, 4.85477576e-05f, 4.83576441e-05f, 4.81661227e-05f, 4.7973208e-05f, 4.77789035e-05f, 4.75832203e-05f,
 4.73861655e-05f, 4.71877502e-05f, 4.69879851e-05f, 4.67868776e-05f, 4.65844387e-05f, 4.63806755e-05f, 4.61755953e-05f, 4.59692128e-05f,
 4.57615351e-05f, 4.55525696e-05f, 4.53423272e-05f, 4.51308188e-05f, 4.49180552e-05f, 4.47040402e-05f, 4.44887883e-05f, 4.42723067e-05f,
 4.40546028e-05f, 4.38356947e-05f, 4.36155824e-05f, 4.33942805e-05f, 4.31717999e-05f, 4.29481479e-05f, 4.27233354e-05f, 4.24973732e-05f,
 4.22702651e-05f, 4.20420292e-05f, 4.18126692e-05f, 4.15821996e-05f, 4.13506277e-05f, 4.11179644e-05f, 4.08842207e-05f, 4.06494037e-05f,
 4.04135244e-05f, 4.01765974e-05f, 3.99386263e-05f, 3.9699622e-05f, 3.94595991e-05f, 3.92185648e-05f, 3.89765264e-05f, 3.87335022e-05f,
 3.84894956e-05f, 3.82445178e-05f, 3.79985795e-05f, 3.77516917e-05f, 3.75038653e-05f, 3.72551076e-05f, 3.70054331e-05f, 3.67548491e-05f,
 3.65033666e-05f, 3.62509963e-05f, 3.59977494e-05f, 3.57436365e-05f, 3.54886652e-05f, 3.52328461e-05f, 3.4976194e-05f, 3.47187124e-05f,
 3.44604196e-05f, 3.42013191e-05f, 3.39414291e-05f, 3.36807534e-05f, 3.34193028e-05f, 3.31570918e-05f, 3.28941278e-05f, 3.26304216e-05f,
 3.23659879e-05f, 3.21008301e-05f, 3.18349666e-05f, 3.1568401e-05f, 3.13011478e-05f, 3.10332143e-05f, 3.07646151e-05f, 3.0495361e-05f,
 3.02254593e-05f, 2.9954921e-05f, 2.96837588e-05f, 2.94119818e-05f, 2.91396009e-05f, 2.88666288e-05f, 2.85930728e-05f, 2.83189456e-05f,
 2.80442564e-05f, 2.77690178e-05f, 2.7493239e-05f, 2.72169309e-05f, 2.69401044e-05f, 2.66627703e-05f, 2.63849397e-05f, 2.61066216e-05f,
 2.58278287e-05f, 2.55485702e-05f, 2.52688569e-05f, 2.49887016e-05f, 2.47081116e-05f, 2.44270996e-05f, 2.41456746e-05f, 2.38638495e-05f,
 2.35816351e-05f, 2.32990387e-05f, 2.30160749e-05f, 2.27327528e-05f, 2.24490814e-05f, 2.21650735e-05f, 2.188074e-05f, 2.15960881e-05f,
 2.13111325e-05f, 2.10258822e-05f, 2.07403482e-05f, 2.04545395e-05f, 2.01684688e-05f, 1.98821454e-05f, 1.95955799e-05f, 1.93087853e-05f,
 1.9021767e-05f, 1.87345413e-05f, 1.84471155e-05f, 1.81594987e-05f, 1.78717055e-05f, 1.75837449e-05f, 1.72956261e-05f, 1.70073599e-05f,
 1.67189573e-05f, 1.64304292e-05f, 1.61417847e-05f, 1.58530365e-05f, 1.55641937e-05f, 1.52752655e-05f, 1.49862644e-05f, 1.46971997e-05f,
 1.44080823e-05f, 1.41189221e-05f, 1.38297291e-05f, 1.35405144e-05f, 1.32512878e-05f, 1.29620603e-05f, 1.26728419e-05f, 1.23836426e-05f,
 1.20944724e-05f, 1.18053422e-05f, 1.1516262e-05f, 1.1227241e-05f, 1.09382909e-05f, 1.06494217e-05f, 1.03606426e-05f, 1.00719644e-05f,
 9.78339722e-06f, 9.49495006e-06f, 9.20663479e-06f, 8.91845957e-06f, 8.63043624e-06f, 8.34257389e-06f, 8.05488162e-06f, 7.76737124e-06f,
 7.48005141e-06f, 7.19293257e-06f, 6.90602428e-06f, 6.61933609e-06f, 6.33287891e-06f, 6.04666138e-06f, 5.76069442e-06f, 5.47498666e-06f,
 5.18954857e-06f, 4.9043897e-06f, 4.61952004e-06f, 4.3349487e-06f, 4.05068522e-06f, 3.76673984e-06f, 3.48312187e-06f, 3.19984088e-06f,
 2.91690617e-06f, 2.63432753e-06f, 2.35211451e-06f, 2.0702762e-06f, 1.78882226e-06f, 1.50776202e-06f, 1.22710492e-06f, 9.46860155e-07f,
 6.67037114e-07f, 3.87645002e-07f, 1.08693115e-07f, -1.69809354e-07f, -4.47853239e-07f, -7.25429345e-07f, -1.00252862e-06f, -1.279142e-06f,
 -1.55526027e-06f, -1.83087468e-06f, -2.10597591e-06f, -2.38055532e-06f, -2.6546038e-06f, -2.92811251e-06f, -3.20107256e-06f, -3.47347532e-06f,
 -3.74531169e-06f, -4.01657326e-06f, -4.28725116e-06f, -4.55733652e-06f, -4.82682071e-06f, -5.09569554e-06f, -5.36395191e-06f, -5.6315821e-06f,
 -5.89857655e-06f, -6.16492707e-06f, -6.43062594e-06f, -6.69566407e-06f, -6.96003326e-06f, -7.22372533e-06f, -7.48673165e-06f, -7.74904493e-06f,
 -8.01065562e-06f, -8.271556e-06f, -8.53173879e-06f, -8.79119489e-06f, -9.04991703e-06f, -9.30789611e-06f, -9.56512486e-06f, -9.821596e-06f,
 -1.00773004e-05f, -1.03322309e-05f, -1.05863792e-05f, -1.08397389e-05f, -1.10923002e-05f, -1.13440574e-05f, -1.15950006e-05f, -1.18451244e-05f,
 -1.20944205e-05f, -1.23428808e-05f, -1.2590499e-05f, -1.28372658e-05f, -1.30831759e-05f, -1.33282201e-05f, -1.35723931e-05f, -1.38156856e-05f,
 -1.40580914e-05f, -1.42996032e-05f, -1.45402137e-05f, -1.47799165e-05f, -1.50187034e-05f, -1.5256569e-05f, -1.54935042e-05f, -1.57295035e-05f,
 -1.59645606e-05f, -1.61986663e-05f, -1.64318171e-05f, -1.66640039e-05f, -1.68952192e-05f, -1.71254596e-05f, -1.7354716e-05f, -1.75829828e-05f,
 -1.78102528e-05f, -1.80365205e-05f, -1.82617787e-05f, -1.84860219e-05f, -1.87092428e-05f, -1.89314342e-05f, -1.91525924e-05f, -1.93727101e-05f,
 -1.95917819e-05f, -1.98097987e-05f, -2.00267586e-05f, -2.02426527e-05f, -2.04574771e-05f, -2.0671223e-05f, -2.08838883e-05f, -2.1095464e-05f,
 -2.13059466e-05f, -2.15153286e-05f, -2.17236047e-05f, -2.19307713e-05f, -2.21368191e-05f, -2.23417464e-05f, -2.2545546e-05f, -2.27482142e-05f,
 -2.29497418e-05f, -2.31501272e-05f, -2.33493629e-05f, -2.35474454e-05f, -2.37443674e-05f, -2.3940127e-05f, -2.41347152e-05f, -2.43281302e-05f,
 -2.45203646e-05f, -2.47114167e-05f, -2.49012792e-05f, -2.50899466e-05f, -2.52774171e-05f, -2.54636834e-05f, -2.56487401e-05f, -2.58325854e-05f,
 -2.60152156e-05f, -2.61966215e-05f, -2.63768015e-05f, -2.65557519e-05f, -2.67334672e-05f, -2.69099437e-05f, -2.7085176e-05f, -2.72591606e-05f,
 -2.74318954e-05f, -2.76033716e-05f, -2.7773589e-05f, -2.7942544e-05f, -2.81102293e-05f, -2.8276645e-05f, -2.84417838e-05f, -2.86056438e-05f,
 -2.87682196e-05f, -2.89295094e-05f, -2.90895096e-05f, -2.92482146e-05f, -2.94056244e-05f, -2.95617319e-05f, -2.97165352e-05f, -2.98700306e-05f,
 -3.00222164e-05f, -3.0173087e-05f, -3.03226407e-05f, -3.04708738e-05f, -3.06177826e-05f, -3.07633636e-05f, -3.09076167e-05f, -3.10505384e-05f,
 -3.11921249e-05f, -3.1332369e-05f, -3.14712743e-05f, -3.16088372e-05f, -3.17450504e-05f, -3.18799175e-05f, -3.20134313e-05f, -3.21455918e-05f,
 -3.22763954e-05f, -3.24058383e-05f, -3.25339242e-05f, -3.26606423e-05f, -3.27859962e-05f, -3.29099785e-05f, -3.30325929e-05f, -3.31538358e-05f,
 -3.32737036e-05f, -3.33921926e-05f, -3.35093064e-05f, -3.36250378e-05f, -3.37393903e-05f, -3.38523532e-05f, -3.39639337e-05f, -3.40741281e-05f,
 -3.41829327e-05f, -3.4290344e-05f, -3.43963657e-05f, -3.45009939e-05f, -3.46042252e-05f, -3.47060632e-05f, -3.48065005e-05f, -3.49055408e-05f,
 -3.50031805e-05f, -3.50994196e-05f, -3.51942581e-05f, -3.52876887e-05f, -3.53797186e-05f, -3.54703407e-05f, -3.55595585e-05f, -3.56473683e-05f,
 -3.57337703e-05f, -3.58187644e-05f, -3.5902347e-05f, -3.59845217e-05f, -3.60652848e-05f, -3.614464e-05f, -3.62225801e-05f, -3.62991086e-05f,
 -3.63742256e-05f, -3.64479311e-05f, -3.65202213e-05f, -3.65911001e-05f, -3.66605636e-05f, -3.67286157e-05f, -3.67952562e-05f, -3.68604778e-05f,
 -3.69242916e-05f, -3.69866866e-05f, -3.70476737e-05f, -3.71072456e-05f, -3.71654023e-05f, -3.72221475e-05f, -3.72774812e-05f, -3.73314033e-05f,
 -3.73839139e-05f, -3.74350129e-05f, -3.74847041e-05f, -3.75329837e-05f, -3.75798518e-05f, -3.76253156e-05f, -3.76693679e-05f, -3.77120159e-05f,
 -3.7753256e-05f, -3.77930919e-05f, -3.78315235e-05f, -3.78685509e-05f, -3.79041776e-05f, -3.79384037e-05f, -3.79712255e-05f, -3.80026504e-05f,
 -3.80326783e-05f, -3.80613092e-05f, -3.80885467e-05f, -3.81143873e-05f, -3.81388381e-05f, -3.81618993e-05f, -3.81835671e-05f, -3.82038488e-05f,
 -3.82227445e-05f, -3.82402541e-05f, -3.82563849e-05f, -3.82711296e-05f, -3.82844992e-05f, -3.82964863e-05f, -3.83071019e-05f, -3.83163424e-05f,
 -3.83242113e-05f, -3.83307088e-05f, -3.8335842e-05f, -3.83396073e-05f, -3.8342012e-05f, -3.83430524e-05f, -3.83427359e-05f, -3.83410588e-05f,
 -3.8338032e-05f, -3.83336519e-05f, -3.83279221e-05f, -3.83208426e-05f, -3.83124207e-05f, -3.830266e-05f, -3.82915568e-05f, -3.8279115e-05f,
 -3.82653416e-05f, -3.82502367e-05f, -3.82338039e-05f, -3.8216047e-05f, -3.81969658e-05f, -3.8176564e-05f, -3.81548452e-05f, -3.81318132e-05f,
 -3.81074678e-05f, -3.80818165e-05f, -3.8054859e-05f, -3.80266029e-05f, -3.79970479e-05f, -3.79661942e-05f, -3.79340527e-05f, -3.79006196e-05f,
 -3.78659024e-05f, -3.78299046e-05f, -3.77926299e-05f, -3.77540782e-05f, -3.77142533e-05f, -3.76731623e-05f, -3.76308089e-05f, -3.75871932e-05f,
 -3.75423224e-05f, -3.74961965e-05f, -3.74488227e-05f, -3.74002011e-05f, -3.7350339e-05f, -3.72992399e-05f, -3.72469076e-05f, -3.7193342e-05f,
 -3.7138554e-05f, -3.70825437e-05f, -3.7025311e-05f, -3.69668705e-05f, -3.69072186e-05f, -3.68463589e-05f, -3.67842986e-05f, -3.67210414e-05f,
 -3.66565946e-05f, -3.65909582e-05f, -3.65241358e-05f, -3.64561347e-05f, -3.63869585e-05f, -3.63166109e-05f, -3.62450955e-05f, -3.61724196e-05f,
 -3.60985869e-05f, -3.60236045e-05f, -3.59474689e-05f, -3.58701946e-05f, -3.57917779e-05f, -3.57122299e-05f, -3.56315504e-05f, -3.55497468e-05f,
 -3.54668264e-05f, -3.53827891e-05f, -3.52976422e-05f, -3.5211393e-05f, -3.51240415e-05f, -3.50355949e-05f, -3.4946057e-05f, -3.48554349e-05f,
 -3.4763736e-05f, -3.46709603e-05f, -3.4577115e-05f, -3.44822074e-05f, -3.43862375e-05f, -3.42892163e-05f, -3.41911436e-05f, -3.40920305e-05f,
 -3.3991877e-05f, -3.38906902e-05f, -3.37884776e-05f, -3.36852427e-05f, -3.35809927e-05f, -3.34757278e-05f, -3.33694588e-05f, -3.3262193e-05f,
 -3.31539268e-05f, -3.30446746e-05f, -3.29344402e-05f, -3.28232272e-05f, -3.27110392e-05f, -3.25978872e-05f, -3.24837747e-05f, -3.23687054e-05f,
 -3.22526903e-05f, -3.21357256e-05f, -3.2017826e-05f, -3.18989951e-05f, -3.17792365e-05f, -3.16585574e-05f, -3.15369653e-05f, -3.14144636e-05f,
 -3.12910597e-05f, -3.11667609e-05f, -3.10415671e-05f, -3.09154893e-05f, -3.07885348e-05f, -3.06607071e-05f, -3.053201e-05f, -3.04024561e-05f,
 -3.02720455e-05f, -3.01407872e-05f, -3.00086867e-05f, -2.98757495e-05f, -2.97419829e-05f, -2.96073904e-05f, -2.9471983e-05f, -2.93357625e-05f,
 -2.9198738e-05f, -2.9060915e-05f, -2.8922299e-05f, -2.87828952e-05f, -2.8642713e-05f, -2.85017577e-05f, -2.83600348e-05f, -2.82175515e-05f,
 -2.80743134e-05f, -2.79303258e-05f, -2.77855979e-05f, -2.76401352e-05f, -2.7493943e-05f, -2.73470287e-05f, -2.71993995e-05f, -2.70510609e-05f,
 -2.69020184e-05f, -2.6752281e-05f, -2.66018524e-05f, -2.64507416e-05f, -2.62989543e-05f, -2.61464975e-05f, -2.59933768e-05f, -2.58395976e-05f,
 -2.56851708e-05f, -2.55300984e-05f, -2.5374391e-05f, -2.52180525e-05f, -2.50610901e-05f, -2.49035111e-05f, -2.47453227e-05f, -2.45865303e-05f,
 -2.44271414e-05f, -2.42671613e-05f, -2.41065973e-05f, -2.39454585e-05f, -2.37837485e-05f, -2.36214764e-05f, -2.34586478e-05f, -2.32952698e-05f,
 -2.31313479e-05f, -2.29668913e-05f, -2.28019053e-05f, -2.26363954e-05f, -2.24703708e-05f, -2.23038387e-05f, -2.21368027e-05f, -2.19692738e-05f,
 -2.18012538e-05f, -2.16327553e-05f, -2.14637803e-05f, -2.12943378e-05f, -2.11244351e-05f, -2.09540776e-05f, -2.07832727e-05f, -2.06120276e-05f,
 -2.04403495e-05f, -2.02682459e-05f, -2.0095722e-05f, -1.99227834e-05f, -1.9749441e-05f, -1.95757002e-05f, -1.94015665e-05f, -1.92270472e-05f,
 -1.90521496e-05f, -1.88768809e-05f, -1.87012465e-05f, -1.85252575e-05f, -1.83489155e-05f, -1.81722298e-05f, -1.79952076e-05f, -1.78178561e-05f,
 -1.76401809e-05f, -1.74621891e-05f, -1.728389e-05f, -1.7105287e-05f, -1.69263894e-05f, -1.67472026e-05f, -1.65677338e-05f, -1.63879904e-05f,
 -1.62079796e-05f, -1.60277086e-05f, -1.5847183e-05f, -1.566641e-05f, -1.54853969e-05f, -1.5304151e-05f, -1.51226777e-05f, -1.49409852e-05f,
 -1.47590799e-05f, -1.45769691e-05f, -1.4394659e-05f, -1.42121571e-05f, -1.40294687e-05f, -1.3846603e-05f, -1.36635654e-05f, -1.34803631e-05f,
 -1.32970035e-05f, -1.31134921e-05f, -1.2929836e-05f, -1.27460435e-05f, -1.25621191e-05f, -1.23780719e-05f, -1.21939074e-05f, -1.2009632e-05f,
 -1.18252538e-05f, -1.16407791e-05f, -1.14562135e-05f, -1.12715652e-05f, -1.10868405e-05f, -1.09020457e-05f, -1.07171882e-05f, -1.05322752e-05f,
 -1.03473112e-05f, -1.01623054e-05f, -9.97726238e-06f, -9.79219021e-06f, -9.60709531e-06f, -9.42198403e-06f, -9.23686366e-06f, -9.05173965e-06f,
 -8.86662019e-06f, -8.68151074e-06f, -8.49641765e-06f, -8.31134821e-06f, -8.12630969e-06f, -7.94130665e-06f, -7.75634726e-06f, -7.57143744e-06f,
 -7.386584e-06f, -7.20179332e-06f, -7.01707177e-06f, -6.83242615e-06f, -6.64786239e-06f, -6.46338776e-06f, -6.27900772e-06f, -6.09472954e-06f,
 -5.91055868e-06f, -5.72650288e-06f, -5.54256712e-06f, -5.3587587e-06f, -5.17508397e-06f, -4.99154839e-06f, -4.80815925e-06f, -4.62492244e-06f,
 -4.44184434e-06f, -4.25893086e-06f, -4.07618882e-06f, -3.89362367e-06f, -3.7112427e-06f, -3.52905136e-06f, -3.34705601e-06f, -3.16526257e-06f,
 -2.98367763e-06f, -2.80230711e-06f, -2.62115714e-06f, -2.44023363e-06f, -2.25954295e-06f, -2.07909102e-06f, -1.89888385e-06f, -1.71892748e-06f,
 -1.53922781e-06f, -1.35979099e-06f, -1.1806228e-06f, -1.0017294e-06f, -8.23116466e-07f, -6.44789964e-07f, -4.66755864e-07f, -2.89019908e-07f,
 -1.11587973e-07f, 6.55341381e-08f, 2.42340633e-07f, 4.18825721e-07f, 5.94983703e-07f, 7.70808811e-07f, 9.46295415e-07f, 1.12143766e-06f,
 1.29623015e-06f, 1.47066703e-06f, 1.64474284e-06f, 1.81845189e-06f, 1.99178862e-06f, 2.16474746e-06f, 2.33732294e-06f, 2.50950961e-06f,
 2.68130202e-06f, 2.85269448e-06f, 3.02368198e-06f, 3.19425862e-06f, 3.3644194e-06f, 3.53415885e-06f, 3.70347152e-06f, 3.87235241e-06f,
 4.04079583e-06f, 4.20879678e-06f, 4.37635026e-06f, 4.54345036e-06f, 4.71009253e-06f, 4.87627176e-06f, 5.04198215e-06f, 5.2072196e-06f,
 5.3719782e-06f, 5.53625296e-06f, 5.70003931e-06f, 5.86333181e-06f, 6.0261259e-06f, 6.18841659e-06f, 6.35019842e-06f, 6.51146729e-06f,
 6.67221775e-06f, 6.83244525e-06f, 6.99214525e-06f, 7.15131227e-06f, 7.30994179e-06f, 7.46802925e-06f, 7.62557011e-06f, 7.78255981e-06f,
 7.93899289e-06f, 8.09486482e-06f, 8.25017196e-06f, 8.40490975e-06f, 8.55907274e-06f, 8.71265638e-06f, 8.86565795e-06f, 9.01807016e-06f,
 9.1698912e-06f, 9.32111561e-06f, 9.47173885e-06f, 9.62175636e-06f, 9.77116542e-06f, 9.91995967e-06f, 1.00681364e-05f, 1.0215691e-05f,
 1.03626189e-05f, 1.05089166e-05f, 1.06545785e-05f, 1.07996029e-05f, 1.09439843e-05f, 1.10877181e-05f, 1.12308016e-05f, 1.13732303e-05f,
 1.15150006e-05f, 1.16561077e-05f, 1.17965483e-05f, 1.19363185e-05f, 1.20754148e-05f, 1.22138335e-05f, 1.23515701e-05f, 1.2488621e-05f,
 1.26249834e-05f, 1.27606527e-05f, 1.28956262e-05f, 1.30298995e-05f, 1.31634688e-05f, 1.32963314e-05f, 1.34284837e-05f, 1.35599221e-05f,
 1.36906428e-05f, 1.38206424e-05f, 1.3949918e-05f, 1.40784659e-05f, 1.42062836e-05f, 1.43333673e-05f, 1.44597125e-05f, 1.45853182e-05f,
 1.471018e-05f, 1.48342951e-05f, 1.49576599e-05f, 1.50802716e-05f, 1.52021275e-05f, 1.53232249e-05f, 1.54435584e-05f, 1.55631278e-05f,
 1.56819297e-05f, 1.57999602e-05f, 1.59172178e-05f, 1.60336986e-05f, 1.61494008e-05f, 1.62643209e-05f, 1.63784553e-05f, 1.64918019e-05f,
 1.66043592e-05f, 1.67161252e-05f, 1.68270944e-05f, 1.69372652e-05f, 1.70466374e-05f, 1.71552056e-05f, 1.72629698e-05f, 1.73699264e-05f,
 1.74760717e-05f, 1.75814057e-05f, 1.7685923e-05f, 1.77896254e-05f, 1.78925075e-05f, 1.79945691e-05f, 1.80958068e-05f, 1.81962187e-05f,
 1.82958029e-05f, 1.83945576e-05f, 1.84924793e-05f, 1.85895678e-05f, 1.86858197e-05f, 1.87812329e-05f, 1.88758077e-05f, 1.89695402e-05f,
 1.90624305e-05f, 1.91544732e-05f, 1.924567e-05f, 1.93360174e-05f, 1.94255153e-05f, 1.95141602e-05f, 1.96019519e-05f, 1.96888868e-05f,
 1.9774965e-05f, 1.98601847e-05f, 1.9944544e-05f, 2.00280429e-05f, 2.01106777e-05f, 2.01924486e-05f, 2.02733536e-05f, 2.03533909e-05f,
 2.04325606e-05f, 2.05108608e-05f, 2.05882898e-05f, 2.06648456e-05f, 2.07405283e-05f, 2.08153378e-05f, 2.08892707e-05f, 2.09623267e-05f,
 2.10345061e-05f, 2.11058068e-05f, 2.11762272e-05f, 2.12457671e-05f, 2.13144267e-05f, 2.13822022e-05f, 2.14490956e-05f, 2.15151049e-05f,
 2.15802283e-05f, 2.16444678e-05f, 2.17078214e-05f, 2.17702873e-05f, 2.18318655e-05f, 2.18925561e-05f, 2.1952359e-05f, 2.20112706e-05f,
 2.20692946e-05f, 2.21264272e-05f, 2.21826704e-05f, 2.22380222e-05f, 2.22924828e-05f, 2.23460502e-05f, 2.23987281e-05f, 2.24505111e-05f,
 2.25014046e-05f, 2.25514032e-05f, 2.26005104e-05f, 2.26487227e-05f, 2.26960437e-05f, 2.27424716e-05f, 2.27880046e-05f, 2.28326462e-05f,
 2.28763929e-05f, 2.29192483e-05f, 2.29612087e-05f, 2.30022779e-05f, 2.30424539e-05f, 2.30817368e-05f, 2.31201284e-05f, 2.31576269e-05f,
 2.3194234e-05f, 2.32299481e-05f, 2.32647726e-05f, 2.32987059e-05f, 2.33317496e-05f, 2.33639021e-05f, 2.3395165e-05f, 2.34255403e-05f,
 2.34550262e-05f, 2.34836243e-05f, 2.35113348e-05f, 2.35381576e-05f, 2.35640964e-05f, 2.35891494e-05f, 2.36133164e-05f, 2.36366013e-05f,
 2.36590022e-05f, 2.36805208e-05f, 2.37011573e-05f, 2.37209133e-05f, 2.37397908e-05f, 2.37577897e-05f, 2.37749082e-05f, 2.37911518e-05f,
 2.38065204e-05f, 2.38210123e-05f, 2.38346329e-05f, 2.38473785e-05f, 2.38592547e-05f, 2.38702596e-05f, 2.3880395e-05f, 2.38896628e-05f,
 2.38980647e-05f, 2.39056008e-05f, 2.39122728e-05f, 2.39180827e-05f, 2.39230303e-05f, 2.39271194e-05f, 2.39303481e-05f, 2.39327219e-05f,
 2.39342389e-05f, 2.39349029e-05f, 2.39347137e-05f, 2.3933675e-05f, 2.39317851e-05f, 2.39290493e-05f, 2.39254659e-05f, 2.39210385e-05f,
 2.39157689e-05f, 2.39096589e-05f, 2.39027086e-05f, 2.38949215e-05f, 2.38862995e-05f, 2.38768444e-05f, 2.38665561e-05f, 2.38554385e-05f,
 2.38434932e-05f, 2.38307202e-05f, 2.38171251e-05f, 2.38027078e-05f, 2.37874701e-05f, 2.37714139e-05f, 2.37545428e-05f, 2.37368567e-05f,
 2.37183594e-05f, 2.36990527e-05f, 2.36789401e-05f, 2.36580199e-05f, 2.36362994e-05f, 2.36137766e-05f, 2.35904554e-05f, 2.35663392e-05f,
 2.354143e-05f, 2.35157277e-05f, 2.34892377e-05f, 2.34619602e-05f, 2.34338986e-05f, 2.34050567e-05f, 2.33754345e-05f, 2.33450355e-05f,
 2.33138635e-05f, 2.32819184e-05f, 2.32492057e-05f, 2.32157254e-05f, 2.31814829e-05f, 2.31464783e-05f, 2.31107151e-05f, 2.30741953e-05f,
 2.30369242e-05f, 2.29989018e-05f, 2.29601319e-05f, 2.29206162e-05f, 2.28803583e-05f, 2.28393637e-05f, 2.27976307e-05f, 2.27551645e-05f,
 2.27119672e-05f, 2.26680422e-05f, 2.26233933e-05f, 2.25780223e-05f, 2.25319309e-05f, 2.24851246e-05f, 2.24376072e-05f, 2.23893767e-05f,
 2.23404422e-05f, 2.2290802e-05f, 2.22404615e-05f, 2.21894243e-05f, 2.21376922e-05f, 2.20852671e-05f, 2.20321563e-05f, 2.19783597e-05f,
 2.19238809e-05f, 2.18687237e-05f, 2.18128916e-05f, 2.17563866e-05f, 2.16992139e-05f, 2.16413755e-05f, 2.1582875e-05f, 2.15237142e-05f,
 2.14639003e-05f, 2.14034317e-05f, 2.13423173e-05f, 2.12805553e-05f, 2.12181512e-05f, 2.11551105e-05f, 2.10914332e-05f, 2.10271264e-05f,
 2.09621903e-05f, 2.08966285e-05f, 2.08304464e-05f, 2.07636476e-05f, 2.06962341e-05f, 2.06282111e-05f, 2.05595807e-05f, 2.04903463e-05f,
 2.04205135e-05f, 2.0350084e-05f, 2.02790616e-05f, 2.02074516e-05f, 2.01352577e-05f, 2.006248e-05f, 1.99891256e-05f, 1.99151982e-05f,
 1.98406997e-05f, 1.97656354e-05f, 1.96900073e-05f, 1.96138208e-05f, 1.95370794e-05f, 1.94597869e-05f, 1.93819469e-05f, 1.9303563e-05f,
 1.92246389e-05f, 1.91451782e-05f, 1.90651863e-05f, 1.89846651e-05f, 1.890362e-05f, 1.88220547e-05f, 1.87399728e-05f, 1.8657378e-05f,
 1.85742756e-05f, 1.84906658e-05f, 1.84065575e-05f, 1.83219508e-05f, 1.82368512e-05f, 1.81512642e-05f, 1.80651914e-05f, 1.79786366e-05f,
 1.78916052e-05f, 1.78041009e-05f, 1.77161292e-05f, 1.76276899e-05f, 1.75387922e-05f, 1.74494362e-05f, 1.73596291e-05f, 1.72693708e-05f,
 1.71786705e-05f, 1.70875282e-05f, 1.69959512e-05f, 1.69039395e-05f, 1.68115021e-05f, 1.6718639e-05f, 1.66253576e-05f, 1.65316596e-05f,
 1.64375506e-05f, 1.63430341e-05f, 1.62481138e-05f, 1.61527933e-05f, 1.60570798e-05f, 1.59609754e-05f, 1.58644834e-05f, 1.57676113e-05f,
 1.56703591e-05f, 1.55727339e-05f, 1.54747395e-05f, 1.53763776e-05f, 1.52776556e-05f, 1.51785771e-05f, 1.50791457e-05f, 1.49793659e-05f,
 1.48792415e-05f, 1.47787769e-05f, 1.46779767e-05f, 1.45768445e-05f, 1.44753858e-05f, 1.43736042e-05f, 1.42715035e-05f, 1.4169088e-05f,
 1.40663624e-05f, 1.39633312e-05f, 1.38599989e-05f, 1.37563684e-05f, 1.3652445e-05f, 1.35482333e-05f, 1.34437369e-05f, 1.33389603e-05f,
 1.32339082e-05f, 1.31285842e-05f, 1.30229928e-05f, 1.29171385e-05f, 1.2811026e-05f, 1.27046587e-05f, 1.25980423e-05f, 1.24911794e-05f,
 1.23840746e-05f, 1.22767333e-05f, 1.21691592e-05f, 1.20613568e-05f, 1.19533297e-05f, 1.18450835e-05f, 1.17366208e-05f, 1.1627948e-05f,
 1.15190669e-05f, 1.14099848e-05f, 1.13007027e-05f, 1.11912277e-05f, 1.10815627e-05f, 1.0971713e-05f, 1.08616814e-05f, 1.07514734e-05f,
 1.06410926e-05f, 1.05305435e-05f, 1.04198307e-05f, 1.03089587e-05f, 1.01979313e-05f, 1.00867519e-05f, 9.97542702e-06f, 9.86395935e-06f,
 9.75235344e-06f, 9.64061383e-06f, 9.52874416e-06f, 9.41674989e-06f, 9.30463375e-06f, 9.19240119e-06f, 9.08005586e-06f, 8.96760321e-06f,
 8.85504596e-06f, 8.74238867e-06f, 8.62963589e-06f, 8.51679215e-06f, 8.4038611e-06f, 8.29084729e-06f, 8.17775526e-06f, 8.06458866e-06f,
 7.95135202e-06f, 7.83804899e-06f, 7.72468411e-06f, 7.61126239e-06f, 7.49778701e-06f, 7.38426252e-06f, 7.270693e-06f, 7.15708256e-06f,
 7.04343574e-06f, 6.92975618e-06f, 6.81604843e-06f, 6.70231657e-06f, 6.5885647e-06f, 6.47479692e-06f, 6.36101731e-06f, 6.24722998e-06f,
 6.133439e-06f, 6.01964848e-06f, 5.90586296e-06f, 5.79208609e-06f, 5.67832194e-06f, 5.56457508e-06f, 5.45084868e-06f, 5.33714774e-06f,
 5.22347545e-06f, 5.10983637e-06f, 4.99623457e-06f, 4.88267369e-06f, 4.76915829e-06f, 4.65569201e-06f, 4.54227848e-06f, 4.42892224e-06f,
 4.31562739e-06f, 4.20239712e-06f, 4.08923643e-06f, 3.97614849e-06f, 3.86313741e-06f, 3.75020682e-06f, 3.63736126e-06f, 3.52460438e-06f,
 3.41194004e-06f, 3.29937188e-06f, 3.18690422e-06f, 3.0745407e-06f, 2.96228495e-06f, 2.85014107e-06f, 2.73811293e-06f, 2.62620415e-06f,
 2.51441861e-06f, 2.40276017e-06f, 2.2912327e-06f, 2.17983961e-06f, 2.06858476e-06f, 1.95747225e-06f, 1.84650537e-06f, 1.73568799e-06f,
 1.62502397e-06f, 1.51451673e-06f, 1.40417012e-06f, 1.29398791e-06f, 1.1839735e-06f, 1.07413064e-06f, 9.6446297e-07f, 8.54974076e-07f,
 7.45667592e-07f, 6.36547099e-07f, 5.27616123e-07f, 4.18878329e-07f, 3.10337128e-07f, 2.01996158e-07f, 9.38588656e-08f, -1.40712091e-08f,
 -1.21790592e-07f, -2.29295793e-07f, -3.36583383e-07f, -4.43649895e-07f, -5.50491905e-07f, -6.57105943e-07f, -7.63488686e-07f, -8.69636779e-07f,
 -9.75546754e-07f, -1.08121526e-06f, -1.186639e-06f, -1.29181467e-06f, -1.39673887e-06f, -1.50140841e-06f, -1.60581999e-06f, -1.70997032e-06f,
 -1.8138561e-06f, -1.91747426e-06f, -2.02082128e-06f, -2.12389432e-06f, -2.22668996e-06f, -2.32920524e-06f, -2.43143677e-06f, -2.53338135e-06f,
 -2.63503625e-06f, -2.73639807e-06f, -2.83746385e-06f, -2.93823064e-06f, -3.03869501e-06f, -3.13885425e-06f, -3.23870518e-06f, -3.33824482e-06f,
 -3.43747024e-06f, -3.53637847e-06f, -3.63496656e-06f, -3.73323155e-06f, -3.83117049e-06f, -3.92878064e-06f, -4.02605929e-06f, -4.12300278e-06f,
 -4.21960931e-06f, -4.31587523e-06f, -4.41179782e-06f, -4.5073748e-06f, -4.60260298e-06f, -4.69748011e-06f, -4.79200253e-06f, -4.88616843e-06f,
 -4.97997462e-06f, -5.07341838e-06f, -5.16649743e-06f, -5.25920905e-06f, -5.35155004e-06f, -5.4435186e-06f, -5.535112e-06f, -5.62632704e-06f,
 -5.71716146e-06f, -5.80761298e-06f, -5.89767888e-06f, -5.98735687e-06f, -6.07664424e-06f, -6.16553871e-06f, -6.25403754e-06f, -6.34213893e-06f,
 -6.42983969e-06f, -6.51713799e-06f, -6.60403157e-06f, -6.69051724e-06f, -6.77659364e-06f, -6.86225803e-06f, -6.94750815e-06f, -7.03234218e-06f,
 -7.11675693e-06f, -7.20075104e-06f, -7.28432178e-06f, -7.36746733e-06f, -7.45018497e-06f, -7.53247332e-06f, -7.61433012e-06f, -7.69575217e-06f,
 -7.77673904e-06f, -7.85728753e-06f, -7.93739582e-06f, -8.0170621e-06f, -8.09628455e-06f, -8.17506134e-06f, -8.25338884e-06f, -8.33126705e-06f,
 -8.40869325e-06f, -8.4856656e-06f, -8.56218139e-06f, -8.63824062e-06f, -8.71383963e-06f, -8.78897845e-06f, -8.86365342e-06f, -8.93786364e-06f,
 -9.01160729e-06f, -9.08488255e-06f, -9.1576876e-06f, -9.23002062e-06f, -9.30188071e-06f, -9.37326604e-06f, -9.44417388e-06f, -9.51460333e-06f,
 -9.58455257e-06f, -9.65402069e-06f, -9.72300586e-06f, -9.79150627e-06f, -9.85952011e-06f, -9.92704736e-06f, -9.99408439e-06f, -1.00606312e-05f,
 -1.0126686e-05f, -1.01922469e-05f, -1.0257314e-05f, -1.03218836e-05f, -1.03859566e-05f, -1.04495302e-05f, -1.05126037e-05f, -1.0575176e-05f,
 -1.06372454e-05f, -1.06988109e-05f, -1.07598707e-05f, -1.08204249e-05f, -1.08804707e-05f, -1.0940008e-05f, -1.0999036e-05f, -1.1057552e-05f,
 -1.11155568e-05f, -1.11730478e-05f, -1.12300249e-05f, -1.12864864e-05f, -1.13424312e-05f, -1.13978595e-05f, -1.14527693e-05f, -1.15071589e-05f,
 -1.15610292e-05f, -1.16143783e-05f, -1.16672054e-05f, -1.17195095e-05f, -1.17712907e-05f, -1.18225462e-05f, -1.18732769e-05f, -1.19234819e-05f,
 -1.19731594e-05f, -1.20223094e-05f, -1.2070931e-05f, -1.21190233e-05f, -1.21665862e-05f, -1.2213618e-05f, -1.22601195e-05f, -1.2306089e-05f,
 -1.23515265e-05f, -1.2396431e-05f, -1.24408016e-05f, -1.24846392e-05f, -1.25279412e-05f, -1.25707093e-05f, -1.26129407e-05f, -1.26546374e-05f,
 -1.26957966e-05f, -1.27364201e-05f, -1.27765052e-05f, -1.28160536e-05f, -1.28550646e-05f, -1.28935362e-05f, -1.29314694e-05f, -1.29688642e-05f,
 -1.30057197e-05f, -1.30420358e-05f, -1.30778126e-05f, -1.31130491e-05f, -1.31477454e-05f, -1.31819024e-05f, -1.32155183e-05f, -1.32485939e-05f,
 -1.32811292e-05f, -1.33131234e-05f, -1.33445765e-05f, -1.33754893e-05f, -1.34058619e-05f, -1.34356924e-05f, -1.34649827e-05f, -1.34937318e-05f,
 -1.35219407e-05f, -1.35496084e-05f, -1.3576735e-05f, -1.36033213e-05f, -1.36293675e-05f, -1.36548733e-05f, -1.3679839e-05f, -1.37042653e-05f,
 -1.37281513e-05f, -1.3751498e-05f, -1.37743054e-05f, -1.37965735e-05f, -1.38183032e-05f, -1.38394944e-05f, -1.38601472e-05f, -1.38802625e-05f,
 -1.38998403e-05f, -1.39188805e-05f, -1.39373842e-05f, -1.39553522e-05f, -1.39727845e-05f, -1.39896811e-05f, -1.40060429e-05f, -1.40218699e-05f,
 -1.40371631e-05f, -1.40519232e-05f, -1.40661505e-05f, -1.40798447e-05f, -1.40930078e-05f, -1.41056398e-05f, -1.41177416e-05f, -1.41293131e-05f,
 -1.41403552e-05f, -1.4150869e-05f, -1.41608552e-05f, -1.4170314e-05f, -1.41792461e-05f, -1.41876526e-05f, -1.41955343e-05f, -1.42028921e-05f,
 -1.4209726e-05f, -1.4216037e-05f, -1.42218269e-05f, -1.42270965e-05f, -1.42318449e-05f, -1.4236075e-05f, -1.42397867e-05f, -1.42429808e-05f,
 -1.42456583e-05f, -1.42478211e-05f, -1.42494682e-05f, -1.42506033e-05f, -1.42512245e-05f, -1.42513354e-05f, -1.42509352e-05f, -1.42500257e-05f,
 -1.42486078e-05f, -1.42466824e-05f, -1.42442514e-05f, -1.42413155e-05f, -1.42378749e-05f, -1.42339322e-05f, -1.42294875e-05f, -1.42245426e-05f,
 -1.42190984e-05f, -1.42131557e-05f, -1.42067174e-05f, -1.41997825e-05f, -1.41923538e-05f, -1.41844321e-05f, -1.41760183e-05f, -1.41671144e-05f,
 -1.41577211e-05f, -1.41478404e-05f, -1.4137473e-05f, -1.4126621e-05f, -1.4115285e-05f, -1.4103467e-05f, -1.40911679e-05f, -1.40783895e-05f,
 -1.40651327e-05f, -1.40513994e-05f, -1.40371912e-05f, -1.40225102e-05f, -1.40073562e-05f, -1.3991732e-05f, -1.39756385e-05f, -1.39590775e-05f,
 -1.39420508e-05f, -1.39245594e-05f, -1.3906606e-05f, -1.38881906e-05f, -1.38693158e-05f, -1.38499827e-05f, -1.38301939e-05f, -1.38099504e-05f,
 -1.3789253e-05f, -1.37681045e-05f, -1.37465067e-05f, -1.37244615e-05f, -1.37019697e-05f, -1.36790331e-05f, -1.36556537e-05f, -1.36318331e-05f,
 -1.36075732e-05f, -1.35828768e-05f, -1.35577438e-05f, -1.3532177e-05f, -1.35061782e-05f, -1.34797492e-05f, -1.34528918e-05f, -1.34256079e-05f,
 -1.33979001e-05f, -1.33697686e-05f, -1.33412159e-05f, -1.33122448e-05f, -1.32828563e-05f, -1.32530531e-05f, -1.32228361e-05f, -1.31922079e-05f,
 -1.31611705e-05f, -1.31297256e-05f, -1.3097876e-05f, -1.30656226e-05f, -1.30329672e-05f, -1.29999125e-05f, -1.29664604e-05f, -1.29326136e-05f,
 -1.28983729e-05f, -1.28637412e-05f, -1.28287202e-05f, -1.27933117e-05f, -1.27575186e-05f, -1.27213425e-05f, -1.26847854e-05f, -1.26478499e-05f,
 -1.26105379e-05f, -1.25728511e-05f, -1.25347915e-05f, -1.24963617e-05f, -1.24575645e-05f, -1.24184016e-05f, -1.23788741e-05f, -1.23389855e-05f,
 -1.22987376e-05f, -1.22581323e-05f, -1.22171723e-05f, -1.21758594e-05f, -1.21341964e-05f, -1.2092185e-05f, -1.2049828e-05f, -1.20071263e-05f,
 -1.19640836e-05f, -1.19207016e-05f, -1.18769831e-05f, -1.18329299e-05f, -1.17885438e-05f, -1.17438276e-05f, -1.1698784e-05f, -1.16534147e-05f,
 -1.16077226e-05f, -1.15617095e-05f, -1.1515378e-05f, -1.14687309e-05f, -1.14217692e-05f, -1.13744964e-05f, -1.13269143e-05f, -1.12790258e-05f,
 -1.12308335e-05f, -1.11823383e-05f, -1.11335439e-05f, -1.10844521e-05f, -1.10350666e-05f, -1.09853872e-05f, -1.09354187e-05f, -1.08851627e-05f,
 -1.08346221e-05f, -1.07837977e-05f, -1.07326941e-05f, -1.06813113e-05f, -1.06296548e-05f, -1.05777244e-05f, -1.0525524e-05f, -1.04730552e-05f,
 -1.04203209e-05f, -1.03673237e-05f, -1.03140655e-05f, -1.02605491e-05f, -1.02067779e-05f, -1.0152753e-05f, -1.00984771e-05f, -1.00439538e-05f,
 -9.98918404e-06f, -9.93417143e-06f, -9.87891872e-06f, -9.82342681e-06f, -9.76770025e-06f, -9.71173995e-06f, -9.65554955e-06f, -9.59912995e-06f,
 -9.54248571e-06f, -9.48561865e-06f, -9.42853057e-06f, -9.37122422e-06f, -9.31370323e-06f, -9.25596851e-06f, -9.19802369e-06f, -9.13987151e-06f,
 -9.08151378e-06f, -9.02295324e-06f, -8.9641926e-06f, -8.90523461e-06f, -8.84608107e-06f, -8.78673472e-06f, -8.7271992e-06f, -8.66747632e-06f,
 -8.60756791e-06f, -8.54747759e-06f, -8.48720811e-06f, -8.42676127e-06f, -8.36613981e-06f, -8.30534555e-06f, -8.24438303e-06f, -8.18325316e-06f,
 -8.12195867e-06f, -8.06050321e-06f, -7.99888858e-06f, -7.93711661e-06f, -7.87519184e-06f, -7.81311428e-06f, -7.75088938e-06f, -7.68851714e-06f,
 -7.62600121e-06f, -7.56334475e-06f, -7.50054915e-06f, -7.43761802e-06f, -7.37455366e-06f, -7.31135788e-06f, -7.24803431e-06f, -7.18458477e-06f,
 -7.12101246e-06f, -7.05731964e-06f, -6.99350858e-06f, -6.92958201e-06f, -6.86554313e-06f, -6.80139374e-06f, -6.73713657e-06f, -6.67277436e-06f,
 -6.60830938e-06f, -6.54374435e-06f, -6.47908246e-06f, -6.41432507e-06f, -6.34947537e-06f, -6.28453608e-06f, -6.21950949e-06f, -6.15439831e-06f,
 -6.08920527e-06f, -6.0239322e-06f, -5.95858182e-06f, -5.89315732e-06f, -5.82766097e-06f, -5.76209504e-06f, -5.69646227e-06f, -5.63076492e-06f,
 -5.56500572e-06f, -5.49918741e-06f, -5.4333118e-06f, -5.36738253e-06f, -5.30140096e-06f, -5.23537028e-06f, -5.16929276e-06f, -5.10317113e-06f,
 -5.03700767e-06f, -4.97080509e-06f, -4.90456523e-06f, -4.83829172e-06f, -4.77198591e-06f, -4.70565101e-06f, -4.63928927e-06f, -4.57290298e-06f,
 -4.50649486e-06f, -4.44006719e-06f, -4.37362269e-06f, -4.30716364e-06f, -4.24069231e-06f, -4.17421143e-06f, -4.10772327e-06f, -4.04123057e-06f,
 -3.97473514e-06f, -3.90824016e-06f, -3.84174746e-06f, -3.77525976e-06f, -3.70877933e-06f, -3.64230868e-06f, -3.57585009e-06f, -3.50940604e-06f,
 -3.44297882e-06f, -3.37657093e-06f, -3.31018464e-06f, -3.24382268e-06f, -3.17748686e-06f, -3.11117969e-06f, -3.04490391e-06f, -2.97866131e-06f,
 -2.91245465e-06f, -2.84628595e-06f, -2.78015796e-06f, -2.71407248e-06f, -2.64803225e-06f, -2.58203954e-06f, -2.51609617e-06f, -2.4502051e-06f,
 -2.38436814e-06f, -2.3185878e-06f, -2.25286635e-06f, -2.18720584e-06f, -2.12160876e-06f, -2.05607739e-06f, -1.99061378e-06f, -1.9252202e-06f,
 -1.85989904e-06f, -1.79465246e-06f, -1.72948262e-06f, -1.66439168e-06f, -1.59938202e-06f, -1.53445558e-06f, -1.46961486e-06f, -1.40486179e-06f,
 -1.34019865e-06f, -1.27562748e-06f, -1.21115067e-06f, -1.14677016e-06f, -1.0824881e-06f, -1.01830676e-06f, -9.54228085e-07f, -8.90254341e-07f,
 -8.26387577e-07f, -7.62629838e-07f, -6.98983285e-07f, -6.35449965e-07f, -5.72031922e-07f, -5.08731262e-07f, -4.45550029e-07f, -3.82490271e-07f,
 -3.19553976e-07f, -2.56743249e-07f, -1.94060064e-07f, -1.31506425e-07f, -6.90843365e-08f, -6.79580303e-09f, 5.5357205e-08f, 1.17372714e-07f,
 1.79248758e-07f, 2.40983383e-07f, 3.02574648e-07f, 3.64020622e-07f, 4.25319371e-07f, 4.86468991e-07f, 5.4746755e-07f, 6.08313144e-07f,
 6.69003953e-07f, 7.29538044e-07f, 7.89913599e-07f, 8.50128686e-07f, 9.10181484e-07f, 9.70070232e-07f, 1.02979288e-06f, 1.08934796e-06f,
 1.1487333e-06f, 1.20794743e-06f, 1.26698831e-06f, 1.32585433e-06f, 1.38454357e-06f, 1.44305443e-06f, 1.50138499e-06f, 1.55953376e-06f,
 1.6174987e-06f, 1.67527844e-06f, 1.73287094e-06f, 1.79027472e-06f, 1.84748808e-06f, 1.9045093e-06f, 1.96133669e-06f, 2.01796865e-06f,
 2.07440371e-06f, 2.13063981e-06f, 2.1866756e-06f, 2.24250948e-06f, 2.29813986e-06f, 2.35356515e-06f, 2.40878376e-06f, 2.46379409e-06f,
 2.51859456e-06f, 2.57318356e-06f, 2.62755998e-06f, 2.68172175e-06f, 2.73566775e-06f, 2.78939615e-06f, 2.84290581e-06f, 2.89619516e-06f,
 2.94926235e-06f, 3.0021065e-06f, 3.05472599e-06f, 3.10711926e-06f, 3.15928492e-06f, 3.21122161e-06f, 3.26292798e-06f, 3.31440242e-06f,
 3.36564381e-06f, 3.41665077e-06f, 3.46742195e-06f, 3.51795575e-06f, 3.56825126e-06f, 3.61830689e-06f, 3.66812128e-06f, 3.71769352e-06f,
 3.76702178e-06f, 3.81610516e-06f, 3.86494276e-06f, 3.91353251e-06f, 3.96187352e-06f, 4.00996487e-06f, 4.05780474e-06f, 4.10539269e-06f,
 4.15272689e-06f, 4.19980643e-06f, 4.2466304e-06f, 4.29319743e-06f, 4.33950618e-06f, 4.38555571e-06f, 4.43134513e-06f, 4.47687262e-06f,
 4.52213817e-06f, 4.56713997e-06f, 4.61187665e-06f, 4.65634821e-06f, 4.70055284e-06f, 4.74448962e-06f, 4.78815764e-06f, 4.831556e-06f,
 4.87468333e-06f, 4.91753872e-06f, 4.96012171e-06f, 5.00243095e-06f, 5.04446552e-06f, 5.08622452e-06f, 5.12770748e-06f, 5.16891259e-06f,
 5.2098394e-06f, 5.25048745e-06f, 5.29085492e-06f, 5.3309418e-06f, 5.3707472e-06f, 5.41026975e-06f, 5.44950899e-06f, 5.48846401e-06f,
 5.52713391e-06f, 5.56551822e-06f, 5.60361605e-06f, 5.64142692e-06f, 5.67894949e-06f, 5.71618284e-06f, 5.75312743e-06f, 5.78978143e-06f,
 5.82614439e-06f, 5.86221586e-06f, 5.89799538e-06f, 5.93348204e-06f, 5.96867494e-06f, 6.00357362e-06f, 6.03817716e-06f, 6.07248558e-06f,
 6.1064984e-06f, 6.14021383e-06f, 6.17363276e-06f, 6.20675382e-06f, 6.23957612e-06f, 6.27210011e-06f, 6.30432442e-06f, 6.33624904e-06f,
 6.36787308e-06f, 6.39919654e-06f, 6.43021849e-06f, 6.46093895e-06f, 6.491357e-06f, 6.52147219e-06f, 6.55128451e-06f, 6.58079307e-06f,
 6.60999785e-06f, 6.63889841e-06f, 6.66749384e-06f, 6.69578458e-06f, 6.72376973e-06f, 6.75144929e-06f, 6.77882281e-06f, 6.80588983e-06f,
 6.83264989e-06f, 6.85910345e-06f, 6.88524915e-06f, 6.91108789e-06f, 6.93661832e-06f, 6.96184088e-06f, 6.98675512e-06f, 7.01136105e-06f,
 7.0356582e-06f, 7.05964612e-06f, 7.08332527e-06f, 7.10669474e-06f, 7.12975498e-06f, 7.15250553e-06f, 7.1749464e-06f, 7.19707759e-06f,
 7.21889865e-06f, 7.24040956e-06f, 7.26161034e-06f, 7.28250097e-06f, 7.30308102e-06f, 7.32335093e-06f, 7.34331024e-06f, 7.36295942e-06f,
 7.38229755e-06f, 7.40132555e-06f, 7.4200434e-06f, 7.43845021e-06f, 7.45654688e-06f, 7.47433296e-06f, 7.49180845e-06f, 7.50897425e-06f,
 7.52582946e-06f, 7.54237453e-06f, 7.55860947e-06f, 7.57453427e-06f, 7.59014938e-06f, 7.60545481e-06f, 7.62045056e-06f, 7.63513708e-06f,
 7.64951437e-06f, 7.66358244e-06f, 7.67734127e-06f, 7.69079179e-06f, 7.70393399e-06f, 7.71676696e-06f, 7.72929252e-06f, 7.74150976e-06f,
 7.7534205e-06f, 7.76502293e-06f, 7.77631794e-06f, 7.78730737e-06f, 7.79798938e-06f, 7.80836581e-06f, 7.81843573e-06f, 7.82820007e-06f,
 7.83765972e-06f, 7.8468147e-06f, 7.85566408e-06f, 7.8642106e-06f, 7.87245244e-06f, 7.88039051e-06f, 7.88802663e-06f, 7.89535989e-06f,
 7.90239028e-06f, 7.90911963e-06f, 7.91554703e-06f, 7.9216743e-06f, 7.92750052e-06f, 7.93302752e-06f, 7.93825438e-06f, 7.94318294e-06f,
 7.94781226e-06f, 7.95214419e-06f, 7.95617871e-06f, 7.95991582e-06f, 7.96335735e-06f, 7.96650238e-06f, 7.96935183e-06f, 7.97190751e-06f,
 7.97416851e-06f, 7.97613575e-06f, 7.97781104e-06f, 7.97919347e-06f, 7.98028395e-06f, 7.9810834e-06f, 7.98159181e-06f, 7.981811e-06f,
 7.98174187e-06f, 7.98138262e-06f, 7.98073688e-06f, 7.97980374e-06f, 7.9785832e-06f, 7.97707798e-06f, 7.97528719e-06f, 7.97321263e-06f,
 7.9708534e-06f, 7.96821223e-06f, 7.96528911e-06f, 7.96208406e-06f, 7.95859796e-06f, 7.95483265e-06f, 7.95078813e-06f, 7.9464653e-06f,
 7.94186508e-06f, 7.93698837e-06f, 7.93183608e-06f, 7.92640822e-06f, 7.92070659e-06f, 7.91473121e-06f, 7.90848298e-06f, 7.90196373e-06f,
 7.89517344e-06f, 7.88811303e-06f, 7.88078341e-06f, 7.87318641e-06f, 7.86532109e-06f, 7.85719021e-06f, 7.84879376e-06f, 7.84013264e-06f,
 7.83120777e-06f, 7.82202096e-06f, 7.81257131e-06f, 7.80286155e-06f, 7.79289167e-06f, 7.78266349e-06f, 7.77217701e-06f, 7.76143315e-06f,
 7.75043463e-06f, 7.73917964e-06f, 7.7276718e-06f, 7.71591112e-06f, 7.70389761e-06f, 7.69163398e-06f, 7.67912024e-06f, 7.66635731e-06f,
 7.65334789e-06f, 7.64009019e-06f, 7.62658783e-06f, 7.61284036e-06f, 7.59884961e-06f, 7.58461647e-06f, 7.57014186e-06f, 7.55542715e-06f,
 7.54047278e-06f, 7.52528103e-06f, 7.50985191e-06f, 7.49418678e-06f, 7.47828699e-06f, 7.46215392e-06f, 7.44578801e-06f, 7.4291911e-06f,
 7.41236363e-06f, 7.39530742e-06f, 7.37802338e-06f, 7.36051243e-06f, 7.34277637e-06f, 7.32481567e-06f, 7.30663169e-06f, 7.28822579e-06f,
 7.26959934e-06f, 7.25075279e-06f, 7.23168841e-06f, 7.21240622e-06f, 7.19290847e-06f, 7.17319608e-06f, 7.15326996e-06f, 7.13313148e-06f,
 7.11278199e-06f, 7.09222286e-06f, 7.071455e-06f, 7.05048024e-06f, 7.02929901e-06f, 7.0079127e-06f, 6.98632311e-06f, 6.96453162e-06f,
 6.94253868e-06f, 6.9203461e-06f, 6.89795525e-06f, 6.87536703e-06f, 6.85258283e-06f, 6.82960444e-06f, 6.80643279e-06f, 6.78306878e-06f,
 6.75951424e-06f, 6.73577051e-06f, 6.71183898e-06f, 6.68772054e-06f, 6.66341657e-06f, 6.63892888e-06f, 6.61425793e-06f, 6.58940598e-06f,
 6.56437396e-06f, 6.53916322e-06f, 6.51377559e-06f, 6.48821151e-06f, 6.46247281e-06f, 6.43656085e-06f, 6.410477e-06f, 6.38422216e-06f,
 6.35779861e-06f, 6.33120726e-06f, 6.30444947e-06f, 6.27752661e-06f, 6.25043958e-06f, 6.22319067e-06f, 6.19578077e-06f, 6.16821126e-06f,
 6.14048395e-06f, 6.11259975e-06f, 6.08456003e-06f, 6.05636615e-06f, 6.02802038e-06f, 5.99952273e-06f, 5.97087592e-06f, 5.94208041e-06f,
 5.91313801e-06f, 5.8840501e-06f, 5.85481848e-06f, 5.82544362e-06f, 5.79592779e-06f, 5.76627235e-06f, 5.73647822e-06f, 5.7065472e-06f,
 5.67648067e-06f, 5.64627953e-06f, 5.61594607e-06f, 5.58548163e-06f, 5.55488714e-06f, 5.52416395e-06f, 5.49331389e-06f, 5.46233878e-06f,
 5.43123906e-06f, 5.40001702e-06f, 5.36867356e-06f, 5.3372105e-06f, 5.30562875e-06f, 5.27393058e-06f, 5.24211691e-06f, 5.2101891e-06f,
 5.17814851e-06f, 5.14599742e-06f, 5.11373628e-06f, 5.08136736e-06f, 5.04889113e-06f, 5.0163103e-06f, 4.98362533e-06f, 4.95083759e-06f,
 4.91794935e-06f, 4.88496153e-06f, 4.85187593e-06f, 4.81869347e-06f, 4.78541642e-06f, 4.75204524e-06f, 4.71858175e-06f, 4.68502776e-06f,
 4.65138464e-06f, 4.6176533e-06f, 4.58383602e-06f, 4.54993369e-06f, 4.51594769e-06f, 4.48187984e-06f, 4.44773104e-06f, 4.41350358e-06f,
 4.37919834e-06f, 4.34481717e-06f, 4.31036096e-06f, 4.27583109e-06f, 4.24122982e-06f, 4.20655806e-06f, 4.17181764e-06f, 4.13700946e-06f,
 4.10213488e-06f, 4.06719619e-06f, 4.03219428e-06f, 3.99713053e-06f, 3.9620063e-06f, 3.92682341e-06f, 3.89158322e-06f, 3.85628709e-06f,
 3.82093594e-06f, 3.78553227e-06f, 3.75007676e-06f, 3.71457122e-06f, 3.67901657e-06f, 3.64341486e-06f, 3.60776698e-06f, 3.57207477e-06f,
 3.53633959e-06f, 3.50056257e-06f, 3.46474553e-06f, 3.42888939e-06f, 3.39299618e-06f, 3.35706682e-06f, 3.32110289e-06f, 3.285106e-06f,
 3.24907728e-06f, 3.21301809e-06f, 3.17693025e-06f, 3.14081467e-06f, 3.10467317e-06f, 3.06850689e-06f, 3.03231718e-06f, 2.99610565e-06f,
 2.95987365e-06f, 2.92362256e-06f, 2.8873535e-06f, 2.8510683e-06f, 2.8147681e-06f, 2.77845425e-06f, 2.74212812e-06f, 2.70579108e-06f,
 2.66944471e-06f, 2.63309016e-06f, 2.59672879e-06f, 2.56036219e-06f, 2.52399127e-06f, 2.48761785e-06f, 2.45124329e-06f, 2.4148685e-06f,
 2.37849531e-06f, 2.34212462e-06f, 2.30575802e-06f, 2.26939687e-06f, 2.23304232e-06f, 2.19669596e-06f, 2.16035892e-06f, 2.12403256e-06f,
 2.08771826e-06f, 2.05141737e-06f, 2.01513103e-06f, 1.97886061e-06f, 1.94260747e-06f, 1.90637297e-06f, 1.87015826e-06f, 1.83396469e-06f,
 1.79779352e-06f, 1.7616461e-06f, 1.7255237e-06f, 1.68942756e-06f, 1.65335905e-06f, 1.61731919e-06f, 1.58130956e-06f, 1.5453312e-06f,
 1.50938547e-06f, 1.47347362e-06f, 1.43759678e-06f, 1.40175632e-06f, 1.36595349e-06f, 1.33018943e-06f, 1.29446539e-06f, 1.25878262e-06f,
 1.22314248e-06f, 1.18754588e-06f, 1.1519943e-06f, 1.11648887e-06f, 1.08103063e-06f, 1.04562105e-06f, 1.01026114e-06f, 9.74952172e-07f,
 9.39695326e-07f, 9.04491742e-07f, 8.69342614e-07f, 8.34249079e-07f, 7.9921233e-07f, 7.64233505e-07f, 7.29313854e-07f, 6.944544e-07f,
 6.59656337e-07f, 6.24920801e-07f, 5.90248987e-07f, 5.55641918e-07f, 5.21100787e-07f, 4.86626732e-07f, 4.52220775e-07f, 4.1788411e-07f,
 3.83617788e-07f, 3.49422947e-07f, 3.15300667e-07f, 2.81252028e-07f, 2.47278109e-07f, 2.13380005e-07f, 1.79558754e-07f, 1.45815449e-07f,
 1.12151149e-07f, 7.85668917e-08f, 4.5063743e-08f, 1.1642733e-08f, -2.16950937e-08f, -5.49487069e-08f, -8.81170834e-08f, -1.21199193e-07f,
 -1.54194041e-07f, -1.87100596e-07f, -2.19917865e-07f, -2.52644838e-07f, -2.85280549e-07f, -3.17824004e-07f, -3.50274206e-07f, -3.82630191e-07f,
 -4.14890991e-07f, -4.47055669e-07f, -4.7912323e-07f, -5.11092708e-07f, -5.42963221e-07f, -5.74733804e-07f, -6.06403546e-07f, -6.37971425e-07f,
 -6.69436645e-07f, -7.00798239e-07f, -7.32055298e-07f, -7.63206913e-07f, -7.94252173e-07f, -8.25190227e-07f, -8.56020165e-07f, -8.86741191e-07f,
 -9.17352281e-07f, -9.47852698e-07f, -9.78241587e-07f, -1.00851798e-06f, -1.03868115e-06f, -1.06873017e-06f, -1.09866426e-06f, -1.12848261e-06f,
 -1.15818443e-06f, -1.18776882e-06f, -1.21723497e-06f, -1.24658209e-06f, -1.2758095e-06f, -1.30491617e-06f, -1.33390165e-06f, -1.36276492e-06f,
 -1.39150518e-06f, -1.42012186e-06f, -1.44861417e-06f, -1.4769812e-06f, -1.50522237e-06f, -1.5333369e-06f, -1.56132398e-06f, -1.58918294e-06f,
 -1.61691321e-06f, -1.64451387e-06f, -1.67198436e-06f, -1.69932389e-06f, -1.72653176e-06f, -1.75360731e-06f, -1.78054995e-06f, -1.80735901e-06f,
 -1.8340337e-06f, -1.86057343e-06f, -1.88697754e-06f, -1.91324534e-06f, -1.93937649e-06f, -1.96536985e-06f, -1.99122519e-06f, -2.01694183e-06f,
 -2.0425191e-06f, -2.06795653e-06f, -2.09325322e-06f, -2.1184087e-06f, -2.14342253e-06f, -2.16829426e-06f, -2.19302297e-06f, -2.2176082e-06f,
 -2.2420495e-06f, -2.26634643e-06f, -2.29049806e-06f, -2.31450417e-06f, -2.33836431e-06f, -2.36207757e-06f, -2.38564371e-06f, -2.40906229e-06f,
 -2.43233262e-06f, -2.45545448e-06f, -2.47842695e-06f, -2.50125004e-06f, -2.52392283e-06f, -2.5464451e-06f, -2.5688164e-06f, -2.59103626e-06f,
 -2.61310424e-06f, -2.63501988e-06f, -2.65678273e-06f, -2.67839232e-06f, -2.69984821e-06f, -2.72115017e-06f, -2.74229774e-06f, -2.76329047e-06f,
 -2.7841279e-06f, -2.80480981e-06f, -2.82533574e-06f, -2.84570547e-06f, -2.8659183e-06f, -2.88597403e-06f, -2.90587241e-06f, -2.92561322e-06f,
 -2.94519577e-06f, -2.96461985e-06f, -2.98388522e-06f, -3.00299166e-06f, -3.02193871e-06f, -3.04072614e-06f, -3.0593535e-06f, -3.07782057e-06f,
 -3.09612733e-06f, -3.11427311e-06f, -3.13225792e-06f, -3.15008151e-06f, -3.16774344e-06f, -3.18524349e-06f, -3.20258164e-06f, -3.21975722e-06f,
 -3.23677068e-06f, -3.25362112e-06f, -3.27030875e-06f, -3.28683313e-06f, -3.30319426e-06f, -3.31939168e-06f, -3.33542539e-06f, -3.35129539e-06f,
 -3.36700123e-06f, -3.38254267e-06f, -3.39791995e-06f, -3.41313262e-06f, -3.42818043e-06f, -3.44306341e-06f, -3.45778153e-06f, -3.47233458e-06f,
 -3.48672233e-06f, -3.50094479e-06f, -3.51500171e-06f, -3.5288931e-06f, -3.54261897e-06f, -3.55617908e-06f, -3.56957344e-06f, -3.58280181e-06f,
 -3.5958642e-06f, -3.60876084e-06f, -3.62149126e-06f, -3.63405547e-06f, -3.64645371e-06f, -3.65868573e-06f, -3.67075154e-06f, -3.68265114e-06f,
 -3.69438453e-06f, -3.70595149e-06f, -3.71735223e-06f, -3.72858699e-06f, -3.73965531e-06f, -3.75055743e-06f, -3.76129333e-06f, -3.77186302e-06f,
 -3.7822665e-06f, -3.792504e-06f, -3.80257552e-06f, -3.81248083e-06f, -3.82222015e-06f, -3.83179395e-06f, -3.84120176e-06f, -3.85044405e-06f,
 -3.85952035e-06f, -3.86843112e-06f, -3.87717682e-06f, -3.885757e-06f, -3.89417164e-06f, -3.90242121e-06f, -3.91050617e-06f, -3.91842605e-06f,
 -3.92618085e-06f, -3.9337715e-06f, -3.94119752e-06f, -3.94845938e-06f, -3.95555662e-06f, -3.96249015e-06f, -3.96925998e-06f, -3.97586609e-06f,
 -3.9823085e-06f, -3.98858811e-06f, -3.994704e-06f, -4.00065755e-06f, -4.00644785e-06f, -4.01207626e-06f, -4.01754187e-06f, -4.02284559e-06f,
 -4.02798787e-06f, -4.03296781e-06f, -4.03778677e-06f, -4.04244474e-06f, -4.04694174e-06f, -4.05127776e-06f, -4.0554537e-06f, -4.05946957e-06f,
 -4.06332583e-06f, -4.06702202e-06f, -4.0705595e-06f, -4.07393736e-06f, -4.07715697e-06f, -4.08021788e-06f, -4.08312098e-06f, -4.08586584e-06f,
 -4.08845381e-06f, -4.09088398e-06f, -4.09315771e-06f, -4.09527502e-06f, -4.09723589e-06f, -4.09904078e-06f, -4.10069015e-06f, -4.10218445e-06f,
 -4.10352413e-06f, -4.10470921e-06f, -4.10574012e-06f, -4.10661733e-06f, -4.10734128e-06f, -4.10791245e-06f, -4.10833081e-06f, -4.10859684e-06f,
 -4.10871098e-06f, -4.10867415e-06f, -4.10848588e-06f, -4.1081471e-06f, -4.10765824e-06f, -4.10701978e-06f, -4.1062317e-06f, -4.10529447e-06f,
 -4.10420898e-06f, -4.10297525e-06f, -4.10159419e-06f, -4.10006578e-06f, -4.09839049e-06f, -4.09656923e-06f, -4.09460199e-06f, -4.09248923e-06f,
 -4.09023141e-06f, -4.08782944e-06f, -4.08528376e-06f, -4.08259393e-06f, -4.07976177e-06f, -4.07678635e-06f, -4.07366952e-06f, -4.0704108e-06f,
 -4.0670111e-06f, -4.0634709e-06f, -4.05979108e-06f, -4.0559712e-06f, -4.05201263e-06f, -4.04791535e-06f, -4.04368029e-06f, -4.03930744e-06f,
 -4.03479817e-06f, -4.03015247e-06f, -4.0253708e-06f, -4.02045362e-06f, -4.01540228e-06f, -4.01021634e-06f, -4.00489671e-06f, -3.99944429e-06f,
 -3.99385908e-06f, -3.988142e-06f, -3.98229349e-06f, -3.97631447e-06f, -3.97020494e-06f, -3.96396581e-06f, -3.95759753e-06f, -3.95110101e-06f,
 -3.94447625e-06f, -3.93772416e-06f, -3.93084565e-06f, -3.92384118e-06f, -3.91671074e-06f, -3.9094557e-06f, -3.90207606e-06f, -3.89457318e-06f,
 -3.88694707e-06f, -3.87919818e-06f, -3.87132786e-06f, -3.86333613e-06f, -3.85522389e-06f, -3.8469916e-06f, -3.83864017e-06f, -3.83017004e-06f,
 -3.82158169e-06f, -3.81287623e-06f, -3.8040539e-06f, -3.79511539e-06f, -3.78606137e-06f, -3.77689275e-06f, -3.76760977e-06f, -3.75821355e-06f,
 -3.74870433e-06f, -3.73908279e-06f, -3.72935006e-06f, -3.71950637e-06f, -3.7095524e-06f, -3.69948907e-06f, -3.68931705e-06f, -3.67903681e-06f,
 -3.66864901e-06f, -3.65815458e-06f, -3.64755397e-06f, -3.63684808e-06f, -3.62603737e-06f, -3.61512275e-06f, -3.60410468e-06f, -3.59298406e-06f,
 -3.58176158e-06f, -3.57043768e-06f, -3.55901352e-06f, -3.54748931e-06f, -3.5358662e-06f, -3.5241444e-06f, -3.51232529e-06f, -3.50040887e-06f,
 -3.48839649e-06f, -3.47628838e-06f, -3.46408547e-06f, -3.45178842e-06f, -3.43939791e-06f, -3.42691487e-06f, -3.41433974e-06f, -3.40167344e-06f,
 -3.38891687e-06f, -3.37607025e-06f, -3.36313474e-06f, -3.350111e-06f, -3.3369995e-06f, -3.32380137e-06f, -3.31051706e-06f, -3.29714749e-06f,
 -3.2836931e-06f, -3.27015505e-06f, -3.25653377e-06f, -3.24282996e-06f, -3.22904475e-06f, -3.21517837e-06f, -3.20123218e-06f, -3.18720618e-06f,
 -3.17310173e-06f, -3.15891953e-06f, -3.14466001e-06f, -3.1303241e-06f, -3.11591248e-06f, -3.10142605e-06f, -3.08686526e-06f, -3.07223127e-06f,
 -3.05752474e-06f, -3.04274613e-06f, -3.02789658e-06f, -3.01297655e-06f, -2.99798671e-06f, -2.98292844e-06f, -2.96780172e-06f, -2.95260793e-06f,
 -2.93734752e-06f, -2.92202117e-06f, -2.90662979e-06f, -2.89117429e-06f, -2.87565513e-06f, -2.86007321e-06f, -2.84442945e-06f, -2.82872429e-06f,
 -2.81295888e-06f, -2.79713367e-06f, -2.78124958e-06f, -2.76530704e-06f, -2.74930744e-06f, -2.73325099e-06f, -2.71713884e-06f, -2.70097144e-06f,
 -2.68474992e-06f, -2.66847451e-06f, -2.65214658e-06f, -2.63576658e-06f, -2.61933519e-06f, -2.60285333e-06f, -2.58632167e-06f, -2.56974113e-06f,
 -2.55311215e-06f, -2.53643589e-06f, -2.51971301e-06f, -2.5029442e-06f, -2.48613014e-06f, -2.46927175e-06f, -2.4523697e-06f, -2.4354249e-06f,
 -2.41843782e-06f, -2.40140935e-06f, -2.38434063e-06f, -2.3672319e-06f, -2.35008406e-06f, -2.33289802e-06f, -2.31567424e-06f, -2.29841385e-06f,
 -2.28111753e-06f, -2.26378575e-06f, -2.24641963e-06f, -2.22901963e-06f, -2.21158666e-06f, -2.19412163e-06f, -2.17662478e-06f, -2.15909745e-06f,
 -2.14154011e-06f, -2.12395344e-06f, -2.10633857e-06f, -2.08869574e-06f, -2.07102585e-06f, -2.05332981e-06f, -2.0356083e-06f, -2.01786224e-06f,
 -2.00009185e-06f, -1.9822985e-06f, -1.96448241e-06f, -1.94664472e-06f, -1.92878588e-06f, -1.9109068e-06f, -1.89300806e-06f, -1.87509067e-06f,
 -1.8571551e-06f, -1.83920213e-06f, -1.82123267e-06f, -1.80324719e-06f, -1.7852467e-06f, -1.76723165e-06f, -1.74920297e-06f, -1.73116132e-06f,
 -1.71310728e-06f, -1.69504187e-06f, -1.67696555e-06f, -1.65887923e-06f, -1.64078347e-06f, -1.62267895e-06f, -1.60456659e-06f, -1.58644707e-06f,
 -1.56832084e-06f, -1.55018893e-06f, -1.5320519e-06f, -1.51391043e-06f, -1.49576522e-06f, -1.47761705e-06f, -1.4594666e-06f, -1.44131457e-06f,
 -1.42316162e-06f, -1.40500845e-06f, -1.38685573e-06f, -1.36870426e-06f, -1.35055461e-06f, -1.33240746e-06f, -1.31426361e-06f, -1.29612363e-06f,
 -1.2779883e-06f, -1.25985821e-06f, -1.24173414e-06f, -1.22361666e-06f, -1.20550646e-06f, -1.18740422e-06f, -1.16931062e-06f, -1.15122634e-06f,
 -1.13315195e-06f, -1.11508825e-06f, -1.09703592e-06f, -1.07899541e-06f, -1.06096752e-06f, -1.04295293e-06f, -1.02495221e-06f, -1.00696604e-06f,
 -9.88995112e-07f, -9.71039981e-07f, -9.53101278e-07f, -9.35179685e-07f, -9.17275884e-07f, -8.99390443e-07f, -8.81524045e-07f, -8.63677258e-07f,
 -8.45850764e-07f, -8.28045131e-07f, -8.10261042e-07f, -7.92499009e-07f, -7.74759769e-07f, -7.57043892e-07f, -7.39351947e-07f, -7.21684614e-07f,
 -7.04042407e-07f, -6.86426006e-07f, -6.6883598e-07f, -6.51272899e-07f, -6.33737386e-07f, -6.16230068e-07f, -5.98751456e-07f, -5.81302231e-07f,
 -5.6388285e-07f, -5.46493993e-07f, -5.2913623e-07f, -5.11810129e-07f, -4.945162e-07f, -4.77255071e-07f, -4.6002728e-07f, -4.42833397e-07f,
 -4.25674017e-07f, -4.08549653e-07f, -3.91460873e-07f, -3.74408245e-07f, -3.57392281e-07f, -3.4041355e-07f, -3.23472591e-07f, -3.06569945e-07f,
 -2.89706151e-07f, -2.72881721e-07f, -2.56097195e-07f, -2.39353113e-07f, -2.22650002e-07f, -2.05988371e-07f, -1.89368734e-07f, -1.72791601e-07f,
 -1.56257499e-07f, -1.39766925e-07f, -1.23320405e-07f, -1.06918407e-07f, -9.05614499e-08f, -7.42500319e-08f, -5.79846393e-08f, -4.17657589e-08f,
 -2.55938843e-08f, -9.46949275e-09f, 6.60693456e-09f, 2.26349215e-08f, 3.86139938e-08f, 5.45436833e-08f, 7.04235248e-08f, 8.62530527e-08f,
 1.02031805e-07f, 1.17759328e-07f, 1.33435165e-07f, 1.49058877e-07f, 1.64629995e-07f, 1.80148106e-07f, 1.95612742e-07f, 2.11023476e-07f,
 2.26379896e-07f, 2.41681533e-07f, 2.5692799e-07f, 2.72118825e-07f, 2.87253641e-07f, 3.02331983e-07f, 3.17353482e-07f, 3.32317711e-07f,
 3.47224272e-07f, 3.6207274e-07f, 3.76862715e-07f, 3.91593829e-07f, 4.06265684e-07f, 4.20877853e-07f, 4.35429996e-07f, 4.49921714e-07f,
 4.64352638e-07f, 4.7872237e-07f, 4.93030598e-07f, 5.07276866e-07f, 5.21460834e-07f, 5.3558216e-07f, 5.49640561e-07f, 5.63635524e-07f,
 5.77566823e-07f, 5.91434059e-07f, 6.05236892e-07f, 6.1897498e-07f, 6.32648039e-07f, 6.46255671e-07f, 6.59797536e-07f, 6.73273405e-07f,
 6.86682824e-07f, 7.00025566e-07f, 7.1330129e-07f, 7.26509711e-07f, 7.39650488e-07f, 7.52723281e-07f, 7.65727918e-07f, 7.78663946e-07f,
 7.91531136e-07f, 8.04329261e-07f, 8.17057924e-07f, 8.29716896e-07f, 8.42305894e-07f, 8.54824691e-07f, 8.67272945e-07f, 8.79650372e-07f,
 8.91956802e-07f, 9.04191836e-07f, 9.16355361e-07f, 9.28447037e-07f, 9.40466634e-07f, 9.52413927e-07f, 9.64288574e-07f, 9.76090519e-07f,
 9.87819362e-07f, 9.99474878e-07f, 1.01105695e-06f, 1.02256524e-06f, 1.03399952e-06f, 1.04535968e-06f, 1.05664549e-06f, 1.0678566e-06f,
 1.07899302e-06f, 1.0900543e-06f, 1.10104043e-06f, 1.11195118e-06f, 1.12278622e-06f, 1.13354554e-06f, 1.1442288e-06f, 1.1548359e-06f,
 1.16536671e-06f, 1.1758209e-06f, 1.18619846e-06f, 1.19649917e-06f, 1.2067228e-06f, 1.21686924e-06f, 1.22693837e-06f, 1.23692996e-06f,
 1.24684391e-06f, 1.25667998e-06f, 1.26643818e-06f, 1.27611816e-06f, 1.28572003e-06f, 1.29524358e-06f, 1.30468845e-06f, 1.31405488e-06f,
 1.32334253e-06f, 1.33255128e-06f, 1.34168101e-06f, 1.35073162e-06f, 1.35970311e-06f, 1.36859535e-06f, 1.37740801e-06f, 1.38614132e-06f,
 1.39479494e-06f, 1.40336886e-06f, 1.41186308e-06f, 1.42027727e-06f, 1.42861165e-06f, 1.43686589e-06f, 1.44504008e-06f, 1.45313413e-06f,
 1.46114792e-06f, 1.46908133e-06f, 1.47693436e-06f, 1.48470701e-06f, 1.49239918e-06f, 1.50001074e-06f, 1.50754181e-06f, 1.51499216e-06f,
 1.52236191e-06f, 1.52965094e-06f, 1.53685926e-06f, 1.54398674e-06f, 1.55103339e-06f, 1.55799933e-06f, 1.56488431e-06f, 1.57168847e-06f,
 1.57841168e-06f, 1.58505406e-06f, 1.59161561e-06f, 1.59809611e-06f, 1.60449576e-06f, 1.61081448e-06f, 1.61705236e-06f, 1.6232093e-06f,
 1.62928541e-06f, 1.63528057e-06f, 1.6411949e-06f, 1.6470284e-06f, 1.65278107e-06f, 1.65845302e-06f, 1.66404413e-06f, 1.66955454e-06f,
 1.67498433e-06f, 1.68033341e-06f, 1.68560189e-06f, 1.69078987e-06f, 1.69589737e-06f, 1.70092437e-06f, 1.70587089e-06f, 1.71073714e-06f,
 1.71552313e-06f, 1.72022885e-06f, 1.72485443e-06f, 1.72939997e-06f, 1.73386547e-06f, 1.73825106e-06f, 1.74255672e-06f, 1.74678269e-06f,
 1.75092896e-06f, 1.75499554e-06f, 1.75898276e-06f, 1.76289041e-06f, 1.76671881e-06f, 1.77046809e-06f, 1.77413813e-06f, 1.77772915e-06f,
 1.78124128e-06f, 1.78467462e-06f, 1.78802929e-06f, 1.79130541e-06f, 1.79450308e-06f, 1.79762242e-06f, 1.80066354e-06f, 1.80362656e-06f,
 1.8065117e-06f, 1.80931897e-06f, 1.81204859e-06f, 1.81470068e-06f, 1.81727535e-06f, 1.81977282e-06f, 1.8221931e-06f, 1.82453653e-06f,
 1.82680299e-06f, 1.82899294e-06f, 1.83110637e-06f, 1.83314341e-06f, 1.8351044e-06f, 1.83698921e-06f, 1.83879831e-06f, 1.8405317e-06f,
 1.84218959e-06f, 1.84377211e-06f, 1.84527948e-06f, 1.84671194e-06f, 1.84806959e-06f, 1.84935266e-06f, 1.85056126e-06f, 1.85169563e-06f,
 1.85275599e-06f, 1.85374256e-06f, 1.85465547e-06f, 1.85549482e-06f, 1.85626106e-06f, 1.85695421e-06f, 1.85757449e-06f, 1.85812212e-06f,
 1.85859744e-06f, 1.85900046e-06f, 1.85933152e-06f, 1.85959084e-06f, 1.85977854e-06f, 1.85989495e-06f, 1.85994031e-06f, 1.85991473e-06f,
 1.85981844e-06f, 1.85965177e-06f, 1.85941497e-06f, 1.85910812e-06f, 1.85873159e-06f, 1.8582856e-06f, 1.85777026e-06f, 1.85718602e-06f,
 1.856533e-06f, 1.85581155e-06f, 1.85502176e-06f, 1.854164e-06f, 1.85323847e-06f, 1.85224542e-06f, 1.85118517e-06f, 1.85005786e-06f,
 1.84886392e-06f, 1.84760347e-06f, 1.84627675e-06f, 1.8448842e-06f, 1.84342593e-06f, 1.8419023e-06f, 1.84031353e-06f, 1.83865995e-06f,
 1.83694181e-06f, 1.83515931e-06f, 1.83331281e-06f, 1.83140253e-06f, 1.82942892e-06f, 1.827392e-06f, 1.82529232e-06f, 1.82312988e-06f,
 1.82090525e-06f, 1.81861856e-06f, 1.81627013e-06f, 1.81386031e-06f, 1.81138932e-06f, 1.80885752e-06f, 1.80626512e-06f, 1.80361246e-06f,
 1.80089989e-06f, 1.79812776e-06f, 1.79529616e-06f, 1.79240556e-06f, 1.78945629e-06f, 1.78644859e-06f, 1.78338269e-06f, 1.78025914e-06f,
 1.77707796e-06f, 1.7738397e-06f, 1.7705446e-06f, 1.76719288e-06f, 1.76378501e-06f, 1.7603212e-06f, 1.75680191e-06f, 1.75322725e-06f,
 1.74959769e-06f, 1.74591355e-06f, 1.74217507e-06f, 1.73838259e-06f, 1.73453657e-06f, 1.73063722e-06f, 1.7266849e-06f, 1.72267994e-06f,
 1.71862268e-06f, 1.71451336e-06f, 1.71035254e-06f, 1.70614032e-06f, 1.70187718e-06f, 1.69756333e-06f, 1.69319924e-06f, 1.68878523e-06f,
 1.68432155e-06f, 1.67980863e-06f, 1.67524672e-06f, 1.67063627e-06f, 1.66597761e-06f, 1.66127097e-06f, 1.65651682e-06f, 1.65171548e-06f,
 1.6468673e-06f, 1.64197252e-06f, 1.63703169e-06f, 1.63204493e-06f, 1.62701281e-06f, 1.62193555e-06f, 1.61681351e-06f, 1.61164712e-06f,
 1.60643663e-06f, 1.60118236e-06f, 1.5958849e-06f, 1.59054434e-06f, 1.58516116e-06f, 1.57973579e-06f, 1.57426848e-06f, 1.56875956e-06f,
 1.56320948e-06f, 1.55761848e-06f, 1.55198711e-06f, 1.5463155e-06f, 1.54060422e-06f, 1.53485348e-06f, 1.52906375e-06f, 1.52323526e-06f,
 1.51736856e-06f, 1.51146378e-06f, 1.50552148e-06f, 1.49954201e-06f, 1.49352559e-06f, 1.48747267e-06f, 1.48138361e-06f, 1.47525884e-06f,
 1.46909861e-06f, 1.46290336e-06f, 1.45667343e-06f, 1.45040917e-06f, 1.44411104e-06f, 1.43777925e-06f, 1.43141426e-06f, 1.42501653e-06f,
 1.41858618e-06f, 1.41212377e-06f, 1.40562963e-06f, 1.39910412e-06f, 1.39254757e-06f, 1.38596045e-06f, 1.37934296e-06f, 1.37269558e-06f,
 1.36601864e-06f, 1.35931259e-06f, 1.35257778e-06f, 1.34581444e-06f, 1.33902302e-06f, 1.33220396e-06f, 1.32535752e-06f, 1.31848412e-06f,
 1.31158413e-06f, 1.30465787e-06f, 1.29770581e-06f, 1.29072828e-06f, 1.28372551e-06f, 1.27669796e-06f, 1.26964608e-06f, 1.26257021e-06f,
 1.25547058e-06f, 1.24834776e-06f, 1.24120186e-06f, 1.23403356e-06f, 1.22684287e-06f, 1.21963046e-06f, 1.21239657e-06f, 1.20514153e-06f,
 1.1978658e-06f, 1.19056961e-06f, 1.1832534e-06f, 1.17591753e-06f, 1.16856245e-06f, 1.16118838e-06f, 1.15379578e-06f, 1.14638488e-06f,
 1.13895624e-06f, 1.13150998e-06f, 1.12404666e-06f, 1.11656664e-06f, 1.10907013e-06f, 1.10155759e-06f, 1.09402936e-06f, 1.08648578e-06f,
 1.0789272e-06f, 1.07135406e-06f, 1.0637666e-06f, 1.05616527e-06f, 1.0485503e-06f, 1.04092226e-06f, 1.03328125e-06f, 1.02562785e-06f,
 1.01796218e-06f, 1.01028479e-06f, 1.00259592e-06f, 9.94896027e-07f, 9.87185331e-07f, 9.79464289e-07f, 9.7173313e-07f, 9.63992306e-07f,
 9.56242161e-07f, 9.48482977e-07f, 9.40715154e-07f, 9.32938974e-07f, 9.25154836e-07f, 9.17363081e-07f, 9.09564051e-07f, 9.01758028e-07f,
 8.93945412e-07f, 8.86126543e-07f, 8.78301705e-07f, 8.70471297e-07f, 8.62635659e-07f, 8.54795076e-07f, 8.46949888e-07f, 8.39100494e-07f,
 8.31247121e-07f, 8.23390167e-07f, 8.15529972e-07f, 8.07666879e-07f, 7.99801171e-07f, 7.91933189e-07f, 7.84063218e-07f, 7.76191712e-07f,
 7.68318841e-07f, 7.60445062e-07f, 7.525706e-07f, 7.44695853e-07f, 7.3682105e-07f, 7.28946588e-07f, 7.21072752e-07f, 7.13199938e-07f,
 7.05328318e-07f, 6.9745829e-07f, 6.89590195e-07f, 6.81724316e-07f, 6.73860939e-07f, 6.66000403e-07f, 6.58142994e-07f, 6.50289053e-07f,
 6.4243892e-07f, 6.34592823e-07f, 6.26751046e-07f, 6.18913987e-07f, 6.1108193e-07f, 6.0325516e-07f, 5.95433903e-07f, 5.87618558e-07f,
 5.79809409e-07f, 5.72006741e-07f, 5.64210779e-07f, 5.56421924e-07f, 5.48640401e-07f, 5.40866552e-07f, 5.33100661e-07f, 5.25342898e-07f,
 5.17593719e-07f, 5.09853351e-07f, 5.0212202e-07f, 4.94400069e-07f, 4.86687725e-07f, 4.78985328e-07f, 4.71293163e-07f, 4.63611457e-07f,
 4.55940523e-07f, 4.48280616e-07f, 4.40632022e-07f, 4.32994995e-07f, 4.25369819e-07f, 4.1775678e-07f, 4.10156105e-07f, 4.02568077e-07f,
 3.94992981e-07f, 3.87431072e-07f, 3.79882607e-07f, 3.72347841e-07f, 3.64827031e-07f, 3.57320459e-07f, 3.49828355e-07f, 3.42350972e-07f,
 3.34888568e-07f, 3.27441427e-07f, 3.20009747e-07f, 3.12593841e-07f, 3.05193879e-07f, 2.97810146e-07f, 2.90442898e-07f, 2.83092362e-07f,
 2.75758794e-07f, 2.6844242e-07f, 2.6114347e-07f, 2.53862169e-07f, 2.46598802e-07f, 2.39353568e-07f, 2.32126681e-07f, 2.24918409e-07f,
 2.17728967e-07f, 2.10558582e-07f, 2.03407467e-07f, 1.96275849e-07f, 1.8916397e-07f, 1.82072043e-07f, 1.75000267e-07f, 1.67948869e-07f,
 1.60918077e-07f, 1.53908104e-07f, 1.46919149e-07f, 1.39951425e-07f, 1.33005145e-07f, 1.26080522e-07f, 1.19177756e-07f, 1.12297052e-07f,
 1.05438609e-07f, 9.86026336e-08f, 9.17893246e-08f, 8.49988808e-08f, 7.82314871e-08f, 7.14873494e-08f, 6.47666596e-08f, 5.80696025e-08f,
 5.13963734e-08f, 4.47471571e-08f, 3.81221383e-08f, 3.15215019e-08f, 2.49454342e-08f, 1.83941129e-08f, 1.18677175e-08f, 5.36642508e-09f,
 -1.10958798e-09f, -7.56014717e-09f, -1.39850806e-08f, -2.0384217e-08f, -2.67573892e-08f, -3.31044276e-08f, -3.94251671e-08f, -4.57194425e-08f,
 -5.19870937e-08f, -5.82279611e-08f, -6.44418847e-08f, -7.06287082e-08f, -7.67882682e-08f, -8.29204296e-08f, -8.9025022e-08f, -9.51018961e-08f,
 -1.01150917e-07f, -1.07171928e-07f, -1.13164788e-07f, -1.19129353e-07f, -1.25065483e-07f, -1.30973021e-07f, -1.36851853e-07f, -1.42701836e-07f,
 -1.4852283e-07f, -1.54314705e-07f, -1.6007732e-07f, -1.65810562e-07f, -1.71514287e-07f, -1.77188383e-07f, -1.82832721e-07f, -1.88447189e-07f,
 -1.94031628e-07f, -1.99585969e-07f, -2.05110055e-07f, -2.10603787e-07f, -2.1606705e-07f, -2.21499732e-07f, -2.26901719e-07f, -2.3227291e-07f,
 -2.37613179e-07f, -2.42922454e-07f, -2.48200593e-07f, -2.53447524e-07f, -2.58663135e-07f, -2.63847312e-07f, -2.68999969e-07f, -2.74121021e-07f,
 -2.79210383e-07f, -2.84267941e-07f, -2.8929361e-07f, -2.94287304e-07f, -2.99248939e-07f, -3.041784e-07f, -3.09075659e-07f, -3.13940603e-07f,
 -3.18773147e-07f, -3.23573232e-07f, -3.28340747e-07f, -3.33075661e-07f, -3.37777863e-07f, -3.42447322e-07f, -3.47083926e-07f, -3.51687618e-07f,
 -3.56258369e-07f, -3.60796037e-07f, -3.6530065e-07f, -3.69772096e-07f, -3.74210288e-07f, -3.78615226e-07f, -3.82986826e-07f, -3.87325059e-07f,
 -3.91629811e-07f, -3.95901083e-07f, -4.00138816e-07f, -4.04342956e-07f, -4.08513444e-07f, -4.12650252e-07f, -4.16753352e-07f, -4.20822658e-07f,
 -4.24858143e-07f, -4.28859806e-07f, -4.32827562e-07f, -4.36761411e-07f, -4.40661324e-07f, -4.44527217e-07f, -4.48359117e-07f, -4.52156968e-07f,
 -4.55920713e-07f, -4.59650408e-07f, -4.63345941e-07f, -4.67007339e-07f, -4.70634575e-07f, -4.74227647e-07f, -4.777865e-07f, -4.81311133e-07f,
 -4.8480149e-07f, -4.88257626e-07f, -4.91679543e-07f, -4.95067184e-07f, -4.98420491e-07f, -5.01739578e-07f, -5.05024332e-07f, -5.08274809e-07f,
 -5.11490953e-07f, -5.1467282e-07f, -5.17820411e-07f, -5.20933725e-07f, -5.24012705e-07f, -5.27057409e-07f, -5.30067837e-07f, -5.33043988e-07f,
 -5.35985862e-07f, -5.38893516e-07f, -5.41766951e-07f, -5.4460611e-07f, -5.47411105e-07f, -5.5018188e-07f, -5.52918493e-07f, -5.55620943e-07f,
 -5.5828923e-07f, -5.60923468e-07f, -5.63523599e-07f, -5.66089682e-07f, -5.68621715e-07f, -5.71119699e-07f, -5.73583748e-07f, -5.76013861e-07f,
 -5.78410038e-07f, -5.80772394e-07f, -5.83100871e-07f, -5.85395526e-07f, -5.87656416e-07f, -5.89883598e-07f, -5.92077072e-07f, -5.94236894e-07f,
 -5.96363122e-07f, -5.98455813e-07f, -6.00514966e-07f, -6.02540638e-07f, -6.04532886e-07f, -6.06491824e-07f, -6.08417395e-07f, -6.10309712e-07f,
 -6.12168833e-07f, -6.13994814e-07f, -6.15787656e-07f, -6.17547471e-07f, -6.19274317e-07f, -6.20968251e-07f, -6.22629329e-07f, -6.24257552e-07f,
 -6.2585309e-07f, -6.27415943e-07f, -6.28946225e-07f, -6.30443935e-07f, -6.31909188e-07f, -6.33341983e-07f, -6.34742548e-07f, -6.36110826e-07f,
 -6.37446874e-07f, -6.38750862e-07f, -6.4002279e-07f, -6.4126283e-07f, -6.42470923e-07f, -6.4364724e-07f, -6.44791839e-07f, -6.45904834e-07f,
 -6.46986223e-07f, -6.48036178e-07f, -6.49054698e-07f, -6.50041954e-07f, -6.50998004e-07f, -6.5192296e-07f, -6.52816823e-07f, -6.53679763e-07f,
 -6.54511837e-07f, -6.55313158e-07f, -6.56083785e-07f, -6.56823886e-07f, -6.57533462e-07f, -6.58212628e-07f, -6.58861552e-07f, -6.59480293e-07f,
 -6.60068906e-07f, -6.60627563e-07f, -6.61156321e-07f, -6.61655292e-07f, -6.62124535e-07f, -6.62564275e-07f, -6.62974458e-07f, -6.63355308e-07f,
 -6.63706942e-07f, -6.64029358e-07f, -6.64322727e-07f, -6.64587162e-07f, -6.64822778e-07f, -6.65029688e-07f, -6.65208006e-07f, -6.65357788e-07f,
 -6.65479206e-07f, -6.65572372e-07f, -6.65637401e-07f, -6.65674349e-07f, -6.65683444e-07f, -6.65664743e-07f, -6.65618302e-07f, -6.65544349e-07f,
 -6.6544294e-07f, -6.65314246e-07f, -6.65158325e-07f, -6.64975346e-07f, -6.64765366e-07f, -6.64528613e-07f, -6.64265144e-07f, -6.63975129e-07f,
 -6.63658625e-07f, -6.63315859e-07f, -6.62946832e-07f, -6.6255177e-07f, -6.62130788e-07f, -6.61683941e-07f, -6.61211516e-07f, -6.60713454e-07f,
 -6.6019004e-07f, -6.5964133e-07f, -6.59067439e-07f, -6.58468593e-07f, -6.57844851e-07f, -6.57196324e-07f, -6.56523241e-07f, -6.55825659e-07f,
 -6.55103747e-07f, -6.54357621e-07f, -6.53587449e-07f, -6.52793346e-07f, -6.51975483e-07f, -6.51133973e-07f, -6.50268987e-07f, -6.49380581e-07f,
 -6.48468983e-07f, -6.47534307e-07f, -6.46576723e-07f, -6.45596288e-07f, -6.44593229e-07f, -6.4356766e-07f, -6.42519751e-07f, -6.41449617e-07f,
 -6.40357371e-07f, -6.3924324e-07f, -6.38107338e-07f, -6.36949778e-07f, -6.35770732e-07f, -6.34570313e-07f, -6.33348748e-07f, -6.32106151e-07f,
 -6.30842578e-07f, -6.29558315e-07f, -6.28253474e-07f, -6.2692817e-07f, -6.25582516e-07f, -6.24216739e-07f, -6.2283101e-07f, -6.21425386e-07f,
 -6.20000094e-07f, -6.18555248e-07f, -6.17090961e-07f, -6.15607519e-07f, -6.1410492e-07f, -6.12583392e-07f, -6.11043106e-07f, -6.09484175e-07f,
 -6.07906827e-07f, -6.06311062e-07f, -6.0469722e-07f, -6.03065303e-07f, -6.01415536e-07f, -5.99748091e-07f, -5.98063082e-07f, -5.96360678e-07f,
 -5.94641051e-07f, -5.92904314e-07f, -5.91150638e-07f, -5.89380249e-07f, -5.87593206e-07f, -5.85789678e-07f, -5.83969893e-07f, -5.82133907e-07f,
 -5.80282006e-07f, -5.78414188e-07f, -5.76530738e-07f, -5.7463177e-07f, -5.72717454e-07f, -5.70787904e-07f, -5.68843348e-07f, -5.66883841e-07f,
 -5.64909612e-07f, -5.62920832e-07f, -5.60917613e-07f, -5.58900183e-07f, -5.56868599e-07f, -5.54823089e-07f, -5.52763765e-07f, -5.506908e-07f,
 -5.48604419e-07f, -5.4650468e-07f, -5.44391753e-07f, -5.42265866e-07f, -5.40127132e-07f, -5.37975723e-07f, -5.35811751e-07f, -5.33635443e-07f,
 -5.31446915e-07f, -5.29246336e-07f, -5.27033819e-07f, -5.24809593e-07f, -5.22573771e-07f, -5.20326523e-07f, -5.1806802e-07f, -5.15798376e-07f,
 -5.13517818e-07f, -5.11226403e-07f, -5.08924359e-07f, -5.06611855e-07f, -5.04289005e-07f, -5.01955981e-07f, -4.99612952e-07f, -4.97260032e-07f,
 -4.94897392e-07f, -4.92525203e-07f, -4.90143634e-07f, -4.877528e-07f, -4.85352928e-07f, -4.82944074e-07f, -4.80526467e-07f, -4.78100219e-07f,
 -4.75665502e-07f, -4.73222485e-07f, -4.70771283e-07f, -4.68312095e-07f, -4.65845034e-07f, -4.6337027e-07f, -4.60887946e-07f, -4.58398233e-07f,
 -4.55901272e-07f, -4.53397206e-07f, -4.50886205e-07f, -4.48368411e-07f, -4.45843966e-07f, -4.43313013e-07f, -4.4077575e-07f, -4.38232291e-07f,
 -4.35682779e-07f, -4.33127383e-07f, -4.30566217e-07f, -4.27999481e-07f, -4.25427316e-07f, -4.22849809e-07f, -4.20267185e-07f, -4.1767953e-07f,
 -4.15087044e-07f, -4.1248984e-07f, -4.09888059e-07f, -4.07281846e-07f, -4.04671397e-07f, -4.02056799e-07f, -3.99438221e-07f, -3.96815778e-07f,
 -3.94189669e-07f, -3.91559979e-07f, -3.88926907e-07f, -3.86290566e-07f, -3.8365107e-07f, -3.81008618e-07f, -3.78363296e-07f, -3.75715302e-07f,
 -3.73064722e-07f, -3.70411726e-07f, -3.67756428e-07f, -3.65098998e-07f, -3.62439579e-07f, -3.59778284e-07f, -3.57115226e-07f, -3.54450606e-07f,
 -3.51784507e-07f, -3.49117101e-07f, -3.46448502e-07f, -3.43778851e-07f, -3.4110829e-07f, -3.38436934e-07f, -3.35764923e-07f, -3.33092402e-07f,
 -3.30419482e-07f, -3.27746307e-07f, -3.25073017e-07f, -3.22399728e-07f, -3.1972661e-07f, -3.17053718e-07f, -3.14381225e-07f, -3.11709272e-07f,
 -3.09037972e-07f, -3.0636744e-07f, -3.03697789e-07f, -3.01029218e-07f, -2.98361783e-07f, -2.956956e-07f, -2.93030865e-07f, -2.90367637e-07f,
 -2.87706058e-07f, -2.85046269e-07f, -2.82388385e-07f, -2.7973249e-07f, -2.77078755e-07f, -2.74427293e-07f, -2.71778191e-07f, -2.69131561e-07f,
 -2.66487575e-07f, -2.63846317e-07f, -2.61207902e-07f, -2.5857247e-07f, -2.55940108e-07f, -2.5331093e-07f, -2.50685076e-07f, -2.48062662e-07f,
 -2.45443744e-07f, -2.4282852e-07f, -2.4021702e-07f, -2.37609413e-07f, -2.35005771e-07f, -2.32406236e-07f, -2.29810894e-07f, -2.27219857e-07f,
 -2.24633254e-07f, -2.22051156e-07f, -2.19473691e-07f, -2.16900972e-07f, -2.14333085e-07f, -2.11770143e-07f, -2.09212246e-07f, -2.06659493e-07f,
 -2.04112013e-07f, -2.01569875e-07f, -1.99033181e-07f, -1.96502057e-07f, -1.93976575e-07f, -1.91456849e-07f, -1.88942977e-07f, -1.86435045e-07f,
 -1.83933153e-07f, -1.81437414e-07f, -1.789479e-07f, -1.7646471e-07f, -1.73987942e-07f, -1.71517684e-07f, -1.69054033e-07f, -1.6659709e-07f,
 -1.64146925e-07f, -1.61703639e-07f, -1.59267316e-07f, -1.56838041e-07f, -1.54415915e-07f, -1.52001022e-07f, -1.49593447e-07f, -1.47193262e-07f,
 -1.44800566e-07f, -1.42415431e-07f, -1.40037955e-07f, -1.37668195e-07f, -1.35306266e-07f, -1.32952223e-07f, -1.30606168e-07f, -1.28268155e-07f,
 -1.25938286e-07f, -1.23616616e-07f, -1.21303245e-07f, -1.1899823e-07f, -1.16701656e-07f, -1.14413595e-07f, -1.12134124e-07f, -1.09863308e-07f,
 -1.07601231e-07f, -1.05347958e-07f, -1.03103559e-07f, -1.008681e-07f, -9.86416637e-08f, -9.64243014e-08f, -9.4216098e-08f, -9.20171104e-08f,
 -8.98274024e-08f, -8.76470452e-08f, -8.54761026e-08f, -8.33146387e-08f, -8.11627103e-08f, -7.90203885e-08f, -7.688773e-08f, -7.47647917e-08f,
 -7.26516447e-08f, -7.05483387e-08f, -6.84549306e-08f, -6.63714914e-08f, -6.42980638e-08f, -6.22347045e-08f, -6.01814776e-08f, -5.81384327e-08f,
 -5.61056268e-08f, -5.4083106e-08f, -5.20709271e-08f, -5.00691399e-08f, -4.80777942e-08f, -4.60969432e-08f, -4.41266366e-08f, -4.21669171e-08f,
 -4.02178344e-08f, -3.82794383e-08f, -3.63517714e-08f, -3.44348798e-08f, -3.25288063e-08f, -3.0633597e-08f, -2.87492945e-08f, -2.68759397e-08f,
 -2.50135752e-08f, -2.31622401e-08f, -2.13219753e-08f, -1.94928198e-08f, -1.76748092e-08f, -1.58679843e-08f, -1.40723815e-08f, -1.22880346e-08f,
 -1.05149809e-08f, -8.75325323e-09f, -7.00288538e-09f, -5.26391108e-09f, -3.53636231e-09f, 0.0f,
};
