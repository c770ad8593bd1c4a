// Generated by tools/gen_algs.py
#![allow(clippy::all)]
use tclifford::declare_algebra;

declare_algebra!(pub Ap, [+], []);
declare_algebra!(pub Am, [-], []);
declare_algebra!(pub An, [0], ["eps"]);
declare_algebra!(pub App, [+,+], ["alpha","b_2"]);
declare_algebra!(pub Apm, [+,-], []);
declare_algebra!(pub Amp, [-,+], []);
declare_algebra!(pub Amm, [-,-], ["I","J"]);
declare_algebra!(pub Apn, [+,0], []);
declare_algebra!(pub Amn, [-,0], []);
declare_algebra!(pub Ann, [0,0], []);
declare_algebra!(pub Appp, [+,+,+], []);
declare_algebra!(pub Appm, [+,+,-], ["a","b","n"]);
declare_algebra!(pub Apmp, [+,-,+], []);
declare_algebra!(pub Apmm, [+,-,-], []);
declare_algebra!(pub Ampp, [-,+,+], []);
declare_algebra!(pub Ampm, [-,+,-], []);
declare_algebra!(pub Ammp, [-,-,+], []);
declare_algebra!(pub Ammm, [-,-,-], []);
declare_algebra!(pub Appn, [+,+,0], []);
declare_algebra!(pub Apmn, [+,-,0], []);
declare_algebra!(pub Ampn, [-,+,0], []);
declare_algebra!(pub Ammn, [-,-,0], []);
declare_algebra!(pub Apnn, [+,0,0], []);
declare_algebra!(pub Amnn, [-,0,0], []);
declare_algebra!(pub Annn, [0,0,0], []);
declare_algebra!(pub Apppp, [+,+,+,+], []);
declare_algebra!(pub Apppm, [+,+,+,-], []);
declare_algebra!(pub Appmp, [+,+,-,+], []);
declare_algebra!(pub Appmm, [+,+,-,-], []);
declare_algebra!(pub Apmpp, [+,-,+,+], []);
declare_algebra!(pub Apmpm, [+,-,+,-], ["p1","m1","p2","m2"]);
declare_algebra!(pub Apmmp, [+,-,-,+], []);
declare_algebra!(pub Apmmm, [+,-,-,-], []);
declare_algebra!(pub Amppp, [-,+,+,+], ["t","x","y","z"]);
declare_algebra!(pub Amppm, [-,+,+,-], []);
declare_algebra!(pub Ampmp, [-,+,-,+], []);
declare_algebra!(pub Ampmm, [-,+,-,-], []);
declare_algebra!(pub Ammpp, [-,-,+,+], []);
declare_algebra!(pub Ammpm, [-,-,+,-], []);
declare_algebra!(pub Ammmp, [-,-,-,+], []);
declare_algebra!(pub Ammmm, [-,-,-,-], []);
declare_algebra!(pub Apppn, [+,+,+,0], ["x","y","z","e"]);
declare_algebra!(pub Appmn, [+,+,-,0], []);
declare_algebra!(pub Apmpn, [+,-,+,0], []);
declare_algebra!(pub Apmmn, [+,-,-,0], []);
declare_algebra!(pub Amppn, [-,+,+,0], []);
declare_algebra!(pub Ampmn, [-,+,-,0], []);
declare_algebra!(pub Ammpn, [-,-,+,0], []);
declare_algebra!(pub Ammmn, [-,-,-,0], []);
declare_algebra!(pub Appnn, [+,+,0,0], []);
declare_algebra!(pub Apmnn, [+,-,0,0], []);
declare_algebra!(pub Ampnn, [-,+,0,0], []);
declare_algebra!(pub Ammnn, [-,-,0,0], []);
declare_algebra!(pub Apnnn, [+,0,0,0], []);
declare_algebra!(pub Amnnn, [-,0,0,0], []);
declare_algebra!(pub Annnn, [0,0,0,0], []);
declare_algebra!(pub Appppp, [+,+,+,+,+], []);
declare_algebra!(pub Ammmmm, [-,-,-,-,-], []);
declare_algebra!(pub Annnnn, [0,0,0,0,0], []);
declare_algebra!(pub Apmpmp, [+,-,+,-,+], []);
declare_algebra!(pub Ampmpm, [-,+,-,+,-], []);
declare_algebra!(pub Appmmp, [+,+,-,-,+], []);
declare_algebra!(pub Apppmm, [+,+,+,-,-], []);
declare_algebra!(pub Ampppn, [-,+,+,+,0], []);
declare_algebra!(pub Appppn, [+,+,+,+,0], []);
declare_algebra!(pub Ammmmn, [-,-,-,-,0], []);
declare_algebra!(pub Apmmnn, [+,-,-,0,0], []);
declare_algebra!(pub Amppnn, [-,+,+,0,0], []);
declare_algebra!(pub Apmnnn, [+,-,0,0,0], []);
declare_algebra!(pub Ammnnn, [-,-,0,0,0], []);
declare_algebra!(pub Apnnnn, [+,0,0,0,0], []);
declare_algebra!(pub Amnnnn, [-,0,0,0,0], []);
declare_algebra!(pub Appppm, [+,+,+,+,-], []);
declare_algebra!(pub Ampppp, [-,+,+,+,+], []);
declare_algebra!(pub Apmmmm, [+,-,-,-,-], []);
declare_algebra!(pub Ammpmn, [-,-,+,-,0], []);
declare_algebra!(pub Apmpmn, [+,-,+,-,0], []);
declare_algebra!(pub Ammmnn, [-,-,-,0,0], []);
declare_algebra!(pub Apppnn, [+,+,+,0,0], []);
declare_algebra!(pub Appnnn, [+,+,0,0,0], []);
declare_algebra!(pub Apppppp, [+,+,+,+,+,+], []);
declare_algebra!(pub Ammmmmm, [-,-,-,-,-,-], []);
declare_algebra!(pub Annnnnn, [0,0,0,0,0,0], []);
declare_algebra!(pub Apmpmpm, [+,-,+,-,+,-], []);
declare_algebra!(pub Ampmpmp, [-,+,-,+,-,+], []);
declare_algebra!(pub Apppmmm, [+,+,+,-,-,-], []);
declare_algebra!(pub Ammpmpp, [-,-,+,-,+,+], []);
declare_algebra!(pub Apppppn, [+,+,+,+,+,0], ["u0","u1","u2","u3","u4","inf"]);
declare_algebra!(pub Amppmpn, [-,+,+,-,+,0], []);
declare_algebra!(pub Ammmmmn, [-,-,-,-,-,0], []);
declare_algebra!(pub Appppnn, [+,+,+,+,0,0], []);
declare_algebra!(pub Apmpmnn, [+,-,+,-,0,0], []);
declare_algebra!(pub Ammppnn, [-,-,+,+,0,0], []);
declare_algebra!(pub Ampmnnn, [-,+,-,0,0,0], []);
declare_algebra!(pub Apppnnn, [+,+,+,0,0,0], []);
declare_algebra!(pub Apmnnnn, [+,-,0,0,0,0], []);
declare_algebra!(pub Ammnnnn, [-,-,0,0,0,0], []);
declare_algebra!(pub Amnnnnn, [-,0,0,0,0,0], []);
declare_algebra!(pub Apppppm, [+,+,+,+,+,-], []);
declare_algebra!(pub Amppppp, [-,+,+,+,+,+], []);
declare_algebra!(pub Apmmmmm, [+,-,-,-,-,-], []);
declare_algebra!(pub Appppmm, [+,+,+,+,-,-], []);
declare_algebra!(pub Ampmmpm, [-,+,-,-,+,-], []);
declare_algebra!(pub Ammppmn, [-,-,+,+,-,0], []);
declare_algebra!(pub Apmpppn, [+,-,+,+,+,0], []);
declare_algebra!(pub Ammpmmn, [-,-,+,-,-,0], []);
declare_algebra!(pub Apmmmnn, [+,-,-,-,0,0], []);
declare_algebra!(pub Appmpnn, [+,+,-,+,0,0], []);
declare_algebra!(pub Ammmmnn, [-,-,-,-,0,0], []);
declare_algebra!(pub Apmpnnn, [+,-,+,0,0,0], []);
declare_algebra!(pub Ammmnnn, [-,-,-,0,0,0], []);
declare_algebra!(pub Appnnnn, [+,+,0,0,0,0], []);
declare_algebra!(pub Apnnnnn, [+,0,0,0,0,0], []);
declare_algebra!(pub Appppppp, [+,+,+,+,+,+,+], []);
declare_algebra!(pub Ammmmmmm, [-,-,-,-,-,-,-], []);
declare_algebra!(pub Annnnnnn, [0,0,0,0,0,0,0], []);
declare_algebra!(pub Apmpmpmp, [+,-,+,-,+,-,+], []);
declare_algebra!(pub Amppmpmn, [-,+,+,-,+,-,0], []);
declare_algebra!(pub Appppppn, [+,+,+,+,+,+,0], []);
declare_algebra!(pub Apmpmnnn, [+,-,+,-,0,0,0], []);
declare_algebra!(pub Ampmnnnn, [-,+,-,0,0,0,0], []);
declare_algebra!(pub Ammpppnn, [-,-,+,+,+,0,0], []);
declare_algebra!(pub Apppppppp, [+,+,+,+,+,+,+,+], []);
declare_algebra!(pub Ammmmmmmm, [-,-,-,-,-,-,-,-], []);
declare_algebra!(pub Apmpmpmpm, [+,-,+,-,+,-,+,-], []);
declare_algebra!(pub Ampmpppmm, [-,+,-,+,+,+,-,-], []);
declare_algebra!(pub Apppppppn, [+,+,+,+,+,+,+,0], []);
declare_algebra!(pub Appmmpmnn, [+,+,-,-,+,-,0,0], []);
declare_algebra!(pub Apmpmnnnn, [+,-,+,-,0,0,0,0], []);
declare_algebra!(pub Annnnnnnn, [0,0,0,0,0,0,0,0], []);
declare_algebra!(pub Amppmpnnn, [-,+,+,-,+,0,0,0], []);
declare_algebra!(pub Appppppm, [+,+,+,+,+,+,-], []);
declare_algebra!(pub Apmmmmmm, [+,-,-,-,-,-,-], []);
declare_algebra!(pub Ammpmmpn, [-,-,+,-,-,+,0], []);
declare_algebra!(pub Apppnnnn, [+,+,+,0,0,0,0], []);
declare_algebra!(pub Apppppppm, [+,+,+,+,+,+,+,-], []);
declare_algebra!(pub Amppppppp, [-,+,+,+,+,+,+,+], []);
declare_algebra!(pub Appmmmmmn, [+,+,-,-,-,-,-,0], []);
declare_algebra!(pub Ammmmnnnn, [-,-,-,-,0,0,0,0], []);
declare_algebra!(pub Apmpmpmpmp, [+,-,+,-,+,-,+,-,+], []);
declare_algebra!(pub Amppmmpnnn, [-,+,+,-,-,+,0,0,0], []);
declare_algebra!(pub Ammmmppppn, [-,-,-,-,+,+,+,+,0], []);
declare_algebra!(pub Apmpmpmpmpm, [+,-,+,-,+,-,+,-,+,-], []);
declare_algebra!(pub Ampppmmpmnn, [-,+,+,+,-,-,+,-,0,0], []);
declare_algebra!(pub Apppppppppp, [+,+,+,+,+,+,+,+,+,+], []);
declare_algebra!(pub Apmnnnnnn, [+,-,0,0,0,0,0,0], []);
declare_algebra!(pub Amnnnnnnn, [-,0,0,0,0,0,0,0], []);
declare_algebra!(pub Apmpmpmpmpmp, [+,-,+,-,+,-,+,-,+,-,+], []);
declare_algebra!(pub Appmmpppmnnn, [+,+,-,-,+,+,+,-,0,0,0], []);
declare_algebra!(pub Ampmpmpmpmpmp, [-,+,-,+,-,+,-,+,-,+,-,+], []);
declare_algebra!(pub Appppmmmmnnnn, [+,+,+,+,-,-,-,-,0,0,0,0], []);
declare_algebra!(pub Ammpmpmppmpmn, [-,-,+,-,+,-,+,+,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmp, [+,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmpp, [+,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmpm, [+,+,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmm, [+,+,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppp, [+,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppm, [+,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmm, [+,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpp, [+,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpm, [+,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmp, [+,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampppm, [-,+,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmp, [-,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmm, [-,+,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpp, [-,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmp, [-,+,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmm, [-,+,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppp, [-,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppm, [-,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmp, [-,-,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmm, [-,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpp, [-,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpm, [-,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmp, [-,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmn, [+,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmpn, [+,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmn, [+,+,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppn, [+,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpn, [+,-,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmn, [+,-,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmn, [-,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpn, [-,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmn, [-,+,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppn, [-,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpn, [-,-,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmnn, [+,+,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpnn, [+,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmnn, [-,+,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpnn, [-,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampnnn, [-,+,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appppmp, [+,+,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmpp, [+,+,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmpm, [+,+,+,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmmp, [+,+,+,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmppp, [+,+,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmppm, [+,+,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmpmp, [+,+,-,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmpmm, [+,+,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmpp, [+,+,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmpm, [+,+,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmmp, [+,+,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmmm, [+,+,-,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpppp, [+,-,+,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpppm, [+,-,+,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppmp, [+,-,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppmm, [+,-,+,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmpp, [+,-,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmmp, [+,-,+,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmmm, [+,-,+,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmppp, [+,-,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmppm, [+,-,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpmp, [+,-,-,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpmm, [+,-,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmpp, [+,-,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmpm, [+,-,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmmp, [+,-,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppppm, [-,+,+,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampppmp, [-,+,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampppmm, [-,+,+,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmpp, [-,+,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmpm, [-,+,+,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmmp, [-,+,+,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmmm, [-,+,+,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmppp, [-,+,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmppm, [-,+,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpmm, [-,+,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmpp, [-,+,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmmp, [-,+,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmmm, [-,+,-,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpppp, [-,-,+,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpppm, [-,-,+,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppmp, [-,-,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppmm, [-,-,+,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmpm, [-,-,+,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmmp, [-,-,+,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmmm, [-,-,+,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmppp, [-,-,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmppm, [-,-,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpmp, [-,-,-,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpmm, [-,-,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmpp, [-,-,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmpm, [-,-,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmmp, [-,-,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appppmn, [+,+,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmpn, [+,+,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmmn, [+,+,+,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmppn, [+,+,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmpmn, [+,+,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmpn, [+,+,-,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmmn, [+,+,-,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppmn, [+,-,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmpn, [+,-,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmmn, [+,-,+,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmppn, [+,-,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpmn, [+,-,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmpn, [+,-,-,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmmn, [+,-,-,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppppn, [-,+,+,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampppmn, [-,+,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmmn, [-,+,+,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmppn, [-,+,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpmn, [-,+,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmpn, [-,+,-,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmmn, [-,+,-,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpppn, [-,-,+,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmpn, [-,-,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmppn, [-,-,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpmn, [-,-,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmpn, [-,-,-,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmnn, [+,+,+,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmnn, [+,+,-,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppnn, [+,-,+,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpnn, [+,-,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampppnn, [-,+,+,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmnn, [-,+,+,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpnn, [-,+,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmnn, [-,+,-,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmnn, [-,-,+,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpnn, [-,-,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmnnn, [+,+,-,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmnnn, [+,-,-,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppnnn, [-,+,+,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpnnn, [-,-,+,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampnnnn, [-,+,0,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmppm, [+,+,+,-,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmppmp, [+,+,-,+,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmpmm, [+,+,-,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppmpp, [+,-,+,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmmpm, [+,-,+,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmpmmp, [+,-,-,+,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmppp, [-,+,+,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpppm, [-,+,-,+,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmpmp, [-,+,-,-,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpppmm, [-,-,+,+,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmmpp, [-,-,+,-,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpmpm, [-,-,-,+,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmmmp, [-,-,-,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmmmn, [+,+,+,-,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmppppn, [+,-,+,+,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmppmn, [+,-,-,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampppmpn, [-,+,+,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpmmn, [-,+,-,+,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmppn, [-,-,+,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmpmn, [-,-,-,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmpnn, [+,+,-,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmmnn, [+,-,-,-,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmnnn, [+,+,+,-,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpnnn, [-,+,-,+,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmnnnn, [+,-,-,0,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apnnnnnn, [+,0,0,0,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apppmmmpm, [+,+,+,-,-,-,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appmmmpmp, [+,+,-,-,-,+,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmpmmm, [+,-,+,-,+,-,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmpmpp, [+,-,-,-,+,-,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmpppm, [-,+,+,-,+,+,+,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpmmmp, [-,+,-,+,-,-,-,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppmpmm, [-,-,+,+,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmpmppp, [-,-,-,+,-,+,+,+], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appppmpmn, [+,+,+,+,-,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpppmpn, [+,-,+,+,+,-,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmmmmmmn, [+,-,-,-,-,-,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmmmppn, [-,+,-,-,-,+,+,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammmmppmn, [-,-,-,-,+,+,-,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Apmpmmpnn, [+,-,+,-,-,+,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammppmmnn, [-,-,+,+,-,-,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppppnnn, [-,+,+,+,+,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ammpmnnnn, [-,-,+,-,0,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Amppmpmpmpmm, [-,+,+,-,+,-,+,-,+,-,-], []);
#[cfg(feature = "wide")] declare_algebra!(pub Ampmpmpmmnnnn, [-,+,-,+,-,+,-,-,0,0,0,0], []);
#[cfg(feature = "wide")] declare_algebra!(pub Appppmmmmppnn, [+,+,+,+,-,-,-,-,+,+,0,0], []);
declare_algebra!(pub Apppppppppppp, [+,+,+,+,+,+,+,+,+,+,+,+], []);
declare_algebra!(pub Ampmpmpmpmpmpn, [-,+,-,+,-,+,-,+,-,+,-,+,0], []);
declare_algebra!(pub Apmpmpmpmpmpmpmpm, [+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-], []);
declare_algebra!(pub Appmppmppmppmppmppmnn, [+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,0,0], []);
declare_algebra!(pub Apmpmpmpmpmpmpmpmpmpm, [+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-], []);
declare_algebra!(pub B31_5, [-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-], []);
declare_algebra!(pub B32_6, [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+], []);
declare_algebra!(pub B33_7, [+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,0], []);
declare_algebra!(pub B48_8, [-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,0,0,0], []);
declare_algebra!(pub Apmpmpmpmpmpmp, [+,-,+,-,+,-,+,-,+,-,+,-,+], []);
declare_algebra!(pub Apmpppmpmmnnnn, [+,-,+,+,+,-,+,-,-,0,0,0,0], []);
declare_algebra!(pub Amppmpmpmmppmnn, [-,+,+,-,+,-,+,-,-,+,+,-,0,0], []);
declare_algebra!(pub Ammpmppmmpppmpmp, [-,-,+,-,+,+,-,-,+,+,+,-,+,-,+], []);
declare_algebra!(pub Ammpppmpppmppmnnn, [-,-,+,+,+,-,+,+,+,-,+,+,-,0,0,0], []);

/// Names of the generators as they were declared.
pub fn names(sig: &str) -> Vec<String> {
    let l: &[&str] = match sig {
        "+++0" => &["x", "y", "z", "e"],
        "-+++" => &["t", "x", "y", "z"],
        "++" => &["alpha", "b_2"],
        "++-" => &["a", "b", "n"],
        "+-+-" => &["p1", "m1", "p2", "m2"],
        "--" => &["I", "J"],
        "+++++0" => &["u0", "u1", "u2", "u3", "u4", "inf"],
        "0" => &["eps"],
        _ => return (0..sig.len()).map(|i| format!("e{i}")).collect(),
    };
    l.iter().map(|s| s.to_string()).collect()
}

/// Signatures of dense and sparse multivectors
pub fn sigs_all() -> Vec<&'static str> {
    vec![
        "+",
        "-",
        "0",
        "++",
        "+-",
        "-+",
        "--",
        "+0",
        "-0",
        "00",
        "+++",
        "++-",
        "+-+",
        "+--",
        "-++",
        "-+-",
        "--+",
        "---",
        "++0",
        "+-0",
        "-+0",
        "--0",
        "+00",
        "-00",
        "000",
        "++++",
        "+++-",
        "++-+",
        "++--",
        "+-++",
        "+-+-",
        "+--+",
        "+---",
        "-+++",
        "-++-",
        "-+-+",
        "-+--",
        "--++",
        "--+-",
        "---+",
        "----",
        "+++0",
        "++-0",
        "+-+0",
        "+--0",
        "-++0",
        "-+-0",
        "--+0",
        "---0",
        "++00",
        "+-00",
        "-+00",
        "--00",
        "+000",
        "-000",
        "0000",
        "+++++",
        "-----",
        "00000",
        "+-+-+",
        "-+-+-",
        "++--+",
        "+++--",
        "-+++0",
        "++++0",
        "----0",
        "+--00",
        "-++00",
        "+-000",
        "--000",
        "+0000",
        "-0000",
        "++++-",
        "-++++",
        "+----",
        "--+-0",
        "+-+-0",
        "---00",
        "+++00",
        "++000",
        "++++++",
        "------",
        "000000",
        "+-+-+-",
        "-+-+-+",
        "+++---",
        "--+-++",
        "+++++0",
        "-++-+0",
        "-----0",
        "++++00",
        "+-+-00",
        "--++00",
        "-+-000",
        "+++000",
        "+-0000",
        "--0000",
        "-00000",
        "+++++-",
        "-+++++",
        "+-----",
        "++++--",
        "-+--+-",
        "--++-0",
        "+-+++0",
        "--+--0",
        "+---00",
        "++-+00",
        "----00",
        "+-+000",
        "---000",
        "++0000",
        "+00000",
        "+++++++",
        "-------",
        "0000000",
        "+-+-+-+",
        "-++-+-0",
        "++++++0",
        "+-+-000",
        "-+-0000",
        "--+++00",
        "++++++++",
        "--------",
        "+-+-+-+-",
        "-+-+++--",
        "+++++++0",
        "++--+-00",
        "+-+-0000",
        "00000000",
        "-++-+000",
        "++++++-",
        "+------",
        "--+--+0",
        "+++0000",
        "+++++++-",
        "-+++++++",
        "++-----0",
        "----0000",
        "+-+-+-+-+",
        "-++--+000",
        "----++++0",
        "+-+-+-+-+-",
        "-+++--+-00",
        "++++++++++",
        "+-000000",
        "-0000000",
        "+-+-+-+-+-+",
        "++--+++-000",
        "-+-+-+-+-+-+",
        "++++----0000",
        "--+-+-++-+-0",
        #[cfg(feature = "wide")] "+++-+",
        #[cfg(feature = "wide")] "++-++",
        #[cfg(feature = "wide")] "++-+-",
        #[cfg(feature = "wide")] "++---",
        #[cfg(feature = "wide")] "+-+++",
        #[cfg(feature = "wide")] "+-++-",
        #[cfg(feature = "wide")] "+-+--",
        #[cfg(feature = "wide")] "+--++",
        #[cfg(feature = "wide")] "+--+-",
        #[cfg(feature = "wide")] "+---+",
        #[cfg(feature = "wide")] "-+++-",
        #[cfg(feature = "wide")] "-++-+",
        #[cfg(feature = "wide")] "-++--",
        #[cfg(feature = "wide")] "-+-++",
        #[cfg(feature = "wide")] "-+--+",
        #[cfg(feature = "wide")] "-+---",
        #[cfg(feature = "wide")] "--+++",
        #[cfg(feature = "wide")] "--++-",
        #[cfg(feature = "wide")] "--+-+",
        #[cfg(feature = "wide")] "--+--",
        #[cfg(feature = "wide")] "---++",
        #[cfg(feature = "wide")] "---+-",
        #[cfg(feature = "wide")] "----+",
        #[cfg(feature = "wide")] "+++-0",
        #[cfg(feature = "wide")] "++-+0",
        #[cfg(feature = "wide")] "++--0",
        #[cfg(feature = "wide")] "+-++0",
        #[cfg(feature = "wide")] "+--+0",
        #[cfg(feature = "wide")] "+---0",
        #[cfg(feature = "wide")] "-++-0",
        #[cfg(feature = "wide")] "-+-+0",
        #[cfg(feature = "wide")] "-+--0",
        #[cfg(feature = "wide")] "--++0",
        #[cfg(feature = "wide")] "---+0",
        #[cfg(feature = "wide")] "++-00",
        #[cfg(feature = "wide")] "+-+00",
        #[cfg(feature = "wide")] "-+-00",
        #[cfg(feature = "wide")] "--+00",
        #[cfg(feature = "wide")] "-+000",
        #[cfg(feature = "wide")] "++++-+",
        #[cfg(feature = "wide")] "+++-++",
        #[cfg(feature = "wide")] "+++-+-",
        #[cfg(feature = "wide")] "+++--+",
        #[cfg(feature = "wide")] "++-+++",
        #[cfg(feature = "wide")] "++-++-",
        #[cfg(feature = "wide")] "++-+-+",
        #[cfg(feature = "wide")] "++-+--",
        #[cfg(feature = "wide")] "++--++",
        #[cfg(feature = "wide")] "++--+-",
        #[cfg(feature = "wide")] "++---+",
        #[cfg(feature = "wide")] "++----",
        #[cfg(feature = "wide")] "+-++++",
        #[cfg(feature = "wide")] "+-+++-",
        #[cfg(feature = "wide")] "+-++-+",
        #[cfg(feature = "wide")] "+-++--",
        #[cfg(feature = "wide")] "+-+-++",
        #[cfg(feature = "wide")] "+-+--+",
        #[cfg(feature = "wide")] "+-+---",
        #[cfg(feature = "wide")] "+--+++",
        #[cfg(feature = "wide")] "+--++-",
        #[cfg(feature = "wide")] "+--+-+",
        #[cfg(feature = "wide")] "+--+--",
        #[cfg(feature = "wide")] "+---++",
        #[cfg(feature = "wide")] "+---+-",
        #[cfg(feature = "wide")] "+----+",
        #[cfg(feature = "wide")] "-++++-",
        #[cfg(feature = "wide")] "-+++-+",
        #[cfg(feature = "wide")] "-+++--",
        #[cfg(feature = "wide")] "-++-++",
        #[cfg(feature = "wide")] "-++-+-",
        #[cfg(feature = "wide")] "-++--+",
        #[cfg(feature = "wide")] "-++---",
        #[cfg(feature = "wide")] "-+-+++",
        #[cfg(feature = "wide")] "-+-++-",
        #[cfg(feature = "wide")] "-+-+--",
        #[cfg(feature = "wide")] "-+--++",
        #[cfg(feature = "wide")] "-+---+",
        #[cfg(feature = "wide")] "-+----",
        #[cfg(feature = "wide")] "--++++",
        #[cfg(feature = "wide")] "--+++-",
        #[cfg(feature = "wide")] "--++-+",
        #[cfg(feature = "wide")] "--++--",
        #[cfg(feature = "wide")] "--+-+-",
        #[cfg(feature = "wide")] "--+--+",
        #[cfg(feature = "wide")] "--+---",
        #[cfg(feature = "wide")] "---+++",
        #[cfg(feature = "wide")] "---++-",
        #[cfg(feature = "wide")] "---+-+",
        #[cfg(feature = "wide")] "---+--",
        #[cfg(feature = "wide")] "----++",
        #[cfg(feature = "wide")] "----+-",
        #[cfg(feature = "wide")] "-----+",
        #[cfg(feature = "wide")] "++++-0",
        #[cfg(feature = "wide")] "+++-+0",
        #[cfg(feature = "wide")] "+++--0",
        #[cfg(feature = "wide")] "++-++0",
        #[cfg(feature = "wide")] "++-+-0",
        #[cfg(feature = "wide")] "++--+0",
        #[cfg(feature = "wide")] "++---0",
        #[cfg(feature = "wide")] "+-++-0",
        #[cfg(feature = "wide")] "+-+-+0",
        #[cfg(feature = "wide")] "+-+--0",
        #[cfg(feature = "wide")] "+--++0",
        #[cfg(feature = "wide")] "+--+-0",
        #[cfg(feature = "wide")] "+---+0",
        #[cfg(feature = "wide")] "+----0",
        #[cfg(feature = "wide")] "-++++0",
        #[cfg(feature = "wide")] "-+++-0",
        #[cfg(feature = "wide")] "-++--0",
        #[cfg(feature = "wide")] "-+-++0",
        #[cfg(feature = "wide")] "-+-+-0",
        #[cfg(feature = "wide")] "-+--+0",
        #[cfg(feature = "wide")] "-+---0",
        #[cfg(feature = "wide")] "--+++0",
        #[cfg(feature = "wide")] "--+-+0",
        #[cfg(feature = "wide")] "---++0",
        #[cfg(feature = "wide")] "---+-0",
        #[cfg(feature = "wide")] "----+0",
        #[cfg(feature = "wide")] "+++-00",
        #[cfg(feature = "wide")] "++--00",
        #[cfg(feature = "wide")] "+-++00",
        #[cfg(feature = "wide")] "+--+00",
        #[cfg(feature = "wide")] "-+++00",
        #[cfg(feature = "wide")] "-++-00",
        #[cfg(feature = "wide")] "-+-+00",
        #[cfg(feature = "wide")] "-+--00",
        #[cfg(feature = "wide")] "--+-00",
        #[cfg(feature = "wide")] "---+00",
        #[cfg(feature = "wide")] "++-000",
        #[cfg(feature = "wide")] "+--000",
        #[cfg(feature = "wide")] "-++000",
        #[cfg(feature = "wide")] "--+000",
        #[cfg(feature = "wide")] "-+0000",
        #[cfg(feature = "wide")] "+++-++-",
        #[cfg(feature = "wide")] "++-++-+",
        #[cfg(feature = "wide")] "++--+--",
        #[cfg(feature = "wide")] "+-++-++",
        #[cfg(feature = "wide")] "+-+--+-",
        #[cfg(feature = "wide")] "+--+--+",
        #[cfg(feature = "wide")] "-++-+++",
        #[cfg(feature = "wide")] "-+-+++-",
        #[cfg(feature = "wide")] "-+--+-+",
        #[cfg(feature = "wide")] "--+++--",
        #[cfg(feature = "wide")] "--+--++",
        #[cfg(feature = "wide")] "---+-+-",
        #[cfg(feature = "wide")] "------+",
        #[cfg(feature = "wide")] "+++---0",
        #[cfg(feature = "wide")] "+-++++0",
        #[cfg(feature = "wide")] "+--++-0",
        #[cfg(feature = "wide")] "-+++-+0",
        #[cfg(feature = "wide")] "-+-+--0",
        #[cfg(feature = "wide")] "--+-++0",
        #[cfg(feature = "wide")] "----+-0",
        #[cfg(feature = "wide")] "++--+00",
        #[cfg(feature = "wide")] "+----00",
        #[cfg(feature = "wide")] "+++-000",
        #[cfg(feature = "wide")] "-+-+000",
        #[cfg(feature = "wide")] "+--0000",
        #[cfg(feature = "wide")] "+000000",
        #[cfg(feature = "wide")] "+++---+-",
        #[cfg(feature = "wide")] "++---+-+",
        #[cfg(feature = "wide")] "+-+-+---",
        #[cfg(feature = "wide")] "+---+-++",
        #[cfg(feature = "wide")] "-++-+++-",
        #[cfg(feature = "wide")] "-+-+---+",
        #[cfg(feature = "wide")] "--++-+--",
        #[cfg(feature = "wide")] "---+-+++",
        #[cfg(feature = "wide")] "++++-+-0",
        #[cfg(feature = "wide")] "+-+++-+0",
        #[cfg(feature = "wide")] "+------0",
        #[cfg(feature = "wide")] "-+---++0",
        #[cfg(feature = "wide")] "----++-0",
        #[cfg(feature = "wide")] "+-+--+00",
        #[cfg(feature = "wide")] "--++--00",
        #[cfg(feature = "wide")] "-++++000",
        #[cfg(feature = "wide")] "--+-0000",
        #[cfg(feature = "wide")] "-++-+-+-+--",
        #[cfg(feature = "wide")] "-+-+-+--0000",
        #[cfg(feature = "wide")] "++++----++00",
    ]
}
#[macro_export]
macro_rules! dispatch_all {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+" => $f::<$crate::algs::Ap $(, $g)*>($($arg),*),
            "-" => $f::<$crate::algs::Am $(, $g)*>($($arg),*),
            "0" => $f::<$crate::algs::An $(, $g)*>($($arg),*),
            "++" => $f::<$crate::algs::App $(, $g)*>($($arg),*),
            "+-" => $f::<$crate::algs::Apm $(, $g)*>($($arg),*),
            "-+" => $f::<$crate::algs::Amp $(, $g)*>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*>($($arg),*),
            "+0" => $f::<$crate::algs::Apn $(, $g)*>($($arg),*),
            "-0" => $f::<$crate::algs::Amn $(, $g)*>($($arg),*),
            "00" => $f::<$crate::algs::Ann $(, $g)*>($($arg),*),
            "+++" => $f::<$crate::algs::Appp $(, $g)*>($($arg),*),
            "++-" => $f::<$crate::algs::Appm $(, $g)*>($($arg),*),
            "+-+" => $f::<$crate::algs::Apmp $(, $g)*>($($arg),*),
            "+--" => $f::<$crate::algs::Apmm $(, $g)*>($($arg),*),
            "-++" => $f::<$crate::algs::Ampp $(, $g)*>($($arg),*),
            "-+-" => $f::<$crate::algs::Ampm $(, $g)*>($($arg),*),
            "--+" => $f::<$crate::algs::Ammp $(, $g)*>($($arg),*),
            "---" => $f::<$crate::algs::Ammm $(, $g)*>($($arg),*),
            "++0" => $f::<$crate::algs::Appn $(, $g)*>($($arg),*),
            "+-0" => $f::<$crate::algs::Apmn $(, $g)*>($($arg),*),
            "-+0" => $f::<$crate::algs::Ampn $(, $g)*>($($arg),*),
            "--0" => $f::<$crate::algs::Ammn $(, $g)*>($($arg),*),
            "+00" => $f::<$crate::algs::Apnn $(, $g)*>($($arg),*),
            "-00" => $f::<$crate::algs::Amnn $(, $g)*>($($arg),*),
            "000" => $f::<$crate::algs::Annn $(, $g)*>($($arg),*),
            "++++" => $f::<$crate::algs::Apppp $(, $g)*>($($arg),*),
            "+++-" => $f::<$crate::algs::Apppm $(, $g)*>($($arg),*),
            "++-+" => $f::<$crate::algs::Appmp $(, $g)*>($($arg),*),
            "++--" => $f::<$crate::algs::Appmm $(, $g)*>($($arg),*),
            "+-++" => $f::<$crate::algs::Apmpp $(, $g)*>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*>($($arg),*),
            "+--+" => $f::<$crate::algs::Apmmp $(, $g)*>($($arg),*),
            "+---" => $f::<$crate::algs::Apmmm $(, $g)*>($($arg),*),
            "-+++" => $f::<$crate::algs::Amppp $(, $g)*>($($arg),*),
            "-++-" => $f::<$crate::algs::Amppm $(, $g)*>($($arg),*),
            "-+-+" => $f::<$crate::algs::Ampmp $(, $g)*>($($arg),*),
            "-+--" => $f::<$crate::algs::Ampmm $(, $g)*>($($arg),*),
            "--++" => $f::<$crate::algs::Ammpp $(, $g)*>($($arg),*),
            "--+-" => $f::<$crate::algs::Ammpm $(, $g)*>($($arg),*),
            "---+" => $f::<$crate::algs::Ammmp $(, $g)*>($($arg),*),
            "----" => $f::<$crate::algs::Ammmm $(, $g)*>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*>($($arg),*),
            "++-0" => $f::<$crate::algs::Appmn $(, $g)*>($($arg),*),
            "+-+0" => $f::<$crate::algs::Apmpn $(, $g)*>($($arg),*),
            "+--0" => $f::<$crate::algs::Apmmn $(, $g)*>($($arg),*),
            "-++0" => $f::<$crate::algs::Amppn $(, $g)*>($($arg),*),
            "-+-0" => $f::<$crate::algs::Ampmn $(, $g)*>($($arg),*),
            "--+0" => $f::<$crate::algs::Ammpn $(, $g)*>($($arg),*),
            "---0" => $f::<$crate::algs::Ammmn $(, $g)*>($($arg),*),
            "++00" => $f::<$crate::algs::Appnn $(, $g)*>($($arg),*),
            "+-00" => $f::<$crate::algs::Apmnn $(, $g)*>($($arg),*),
            "-+00" => $f::<$crate::algs::Ampnn $(, $g)*>($($arg),*),
            "--00" => $f::<$crate::algs::Ammnn $(, $g)*>($($arg),*),
            "+000" => $f::<$crate::algs::Apnnn $(, $g)*>($($arg),*),
            "-000" => $f::<$crate::algs::Amnnn $(, $g)*>($($arg),*),
            "0000" => $f::<$crate::algs::Annnn $(, $g)*>($($arg),*),
            "+++++" => $f::<$crate::algs::Appppp $(, $g)*>($($arg),*),
            "-----" => $f::<$crate::algs::Ammmmm $(, $g)*>($($arg),*),
            "00000" => $f::<$crate::algs::Annnnn $(, $g)*>($($arg),*),
            "+-+-+" => $f::<$crate::algs::Apmpmp $(, $g)*>($($arg),*),
            "-+-+-" => $f::<$crate::algs::Ampmpm $(, $g)*>($($arg),*),
            "++--+" => $f::<$crate::algs::Appmmp $(, $g)*>($($arg),*),
            "+++--" => $f::<$crate::algs::Apppmm $(, $g)*>($($arg),*),
            "-+++0" => $f::<$crate::algs::Ampppn $(, $g)*>($($arg),*),
            "++++0" => $f::<$crate::algs::Appppn $(, $g)*>($($arg),*),
            "----0" => $f::<$crate::algs::Ammmmn $(, $g)*>($($arg),*),
            "+--00" => $f::<$crate::algs::Apmmnn $(, $g)*>($($arg),*),
            "-++00" => $f::<$crate::algs::Amppnn $(, $g)*>($($arg),*),
            "+-000" => $f::<$crate::algs::Apmnnn $(, $g)*>($($arg),*),
            "--000" => $f::<$crate::algs::Ammnnn $(, $g)*>($($arg),*),
            "+0000" => $f::<$crate::algs::Apnnnn $(, $g)*>($($arg),*),
            "-0000" => $f::<$crate::algs::Amnnnn $(, $g)*>($($arg),*),
            "++++-" => $f::<$crate::algs::Appppm $(, $g)*>($($arg),*),
            "-++++" => $f::<$crate::algs::Ampppp $(, $g)*>($($arg),*),
            "+----" => $f::<$crate::algs::Apmmmm $(, $g)*>($($arg),*),
            "--+-0" => $f::<$crate::algs::Ammpmn $(, $g)*>($($arg),*),
            "+-+-0" => $f::<$crate::algs::Apmpmn $(, $g)*>($($arg),*),
            "---00" => $f::<$crate::algs::Ammmnn $(, $g)*>($($arg),*),
            "+++00" => $f::<$crate::algs::Apppnn $(, $g)*>($($arg),*),
            "++000" => $f::<$crate::algs::Appnnn $(, $g)*>($($arg),*),
            "++++++" => $f::<$crate::algs::Apppppp $(, $g)*>($($arg),*),
            "------" => $f::<$crate::algs::Ammmmmm $(, $g)*>($($arg),*),
            "000000" => $f::<$crate::algs::Annnnnn $(, $g)*>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*>($($arg),*),
            "-+-+-+" => $f::<$crate::algs::Ampmpmp $(, $g)*>($($arg),*),
            "+++---" => $f::<$crate::algs::Apppmmm $(, $g)*>($($arg),*),
            "--+-++" => $f::<$crate::algs::Ammpmpp $(, $g)*>($($arg),*),
            "+++++0" => $f::<$crate::algs::Apppppn $(, $g)*>($($arg),*),
            "-++-+0" => $f::<$crate::algs::Amppmpn $(, $g)*>($($arg),*),
            "-----0" => $f::<$crate::algs::Ammmmmn $(, $g)*>($($arg),*),
            "++++00" => $f::<$crate::algs::Appppnn $(, $g)*>($($arg),*),
            "+-+-00" => $f::<$crate::algs::Apmpmnn $(, $g)*>($($arg),*),
            "--++00" => $f::<$crate::algs::Ammppnn $(, $g)*>($($arg),*),
            "-+-000" => $f::<$crate::algs::Ampmnnn $(, $g)*>($($arg),*),
            "+++000" => $f::<$crate::algs::Apppnnn $(, $g)*>($($arg),*),
            "+-0000" => $f::<$crate::algs::Apmnnnn $(, $g)*>($($arg),*),
            "--0000" => $f::<$crate::algs::Ammnnnn $(, $g)*>($($arg),*),
            "-00000" => $f::<$crate::algs::Amnnnnn $(, $g)*>($($arg),*),
            "+++++-" => $f::<$crate::algs::Apppppm $(, $g)*>($($arg),*),
            "-+++++" => $f::<$crate::algs::Amppppp $(, $g)*>($($arg),*),
            "+-----" => $f::<$crate::algs::Apmmmmm $(, $g)*>($($arg),*),
            "++++--" => $f::<$crate::algs::Appppmm $(, $g)*>($($arg),*),
            "-+--+-" => $f::<$crate::algs::Ampmmpm $(, $g)*>($($arg),*),
            "--++-0" => $f::<$crate::algs::Ammppmn $(, $g)*>($($arg),*),
            "+-+++0" => $f::<$crate::algs::Apmpppn $(, $g)*>($($arg),*),
            "--+--0" => $f::<$crate::algs::Ammpmmn $(, $g)*>($($arg),*),
            "+---00" => $f::<$crate::algs::Apmmmnn $(, $g)*>($($arg),*),
            "++-+00" => $f::<$crate::algs::Appmpnn $(, $g)*>($($arg),*),
            "----00" => $f::<$crate::algs::Ammmmnn $(, $g)*>($($arg),*),
            "+-+000" => $f::<$crate::algs::Apmpnnn $(, $g)*>($($arg),*),
            "---000" => $f::<$crate::algs::Ammmnnn $(, $g)*>($($arg),*),
            "++0000" => $f::<$crate::algs::Appnnnn $(, $g)*>($($arg),*),
            "+00000" => $f::<$crate::algs::Apnnnnn $(, $g)*>($($arg),*),
            "+++++++" => $f::<$crate::algs::Appppppp $(, $g)*>($($arg),*),
            "-------" => $f::<$crate::algs::Ammmmmmm $(, $g)*>($($arg),*),
            "0000000" => $f::<$crate::algs::Annnnnnn $(, $g)*>($($arg),*),
            "+-+-+-+" => $f::<$crate::algs::Apmpmpmp $(, $g)*>($($arg),*),
            "-++-+-0" => $f::<$crate::algs::Amppmpmn $(, $g)*>($($arg),*),
            "++++++0" => $f::<$crate::algs::Appppppn $(, $g)*>($($arg),*),
            "+-+-000" => $f::<$crate::algs::Apmpmnnn $(, $g)*>($($arg),*),
            "-+-0000" => $f::<$crate::algs::Ampmnnnn $(, $g)*>($($arg),*),
            "--+++00" => $f::<$crate::algs::Ammpppnn $(, $g)*>($($arg),*),
            "++++++++" => $f::<$crate::algs::Apppppppp $(, $g)*>($($arg),*),
            "--------" => $f::<$crate::algs::Ammmmmmmm $(, $g)*>($($arg),*),
            "+-+-+-+-" => $f::<$crate::algs::Apmpmpmpm $(, $g)*>($($arg),*),
            "-+-+++--" => $f::<$crate::algs::Ampmpppmm $(, $g)*>($($arg),*),
            "+++++++0" => $f::<$crate::algs::Apppppppn $(, $g)*>($($arg),*),
            "++--+-00" => $f::<$crate::algs::Appmmpmnn $(, $g)*>($($arg),*),
            "+-+-0000" => $f::<$crate::algs::Apmpmnnnn $(, $g)*>($($arg),*),
            "00000000" => $f::<$crate::algs::Annnnnnnn $(, $g)*>($($arg),*),
            "-++-+000" => $f::<$crate::algs::Amppmpnnn $(, $g)*>($($arg),*),
            "++++++-" => $f::<$crate::algs::Appppppm $(, $g)*>($($arg),*),
            "+------" => $f::<$crate::algs::Apmmmmmm $(, $g)*>($($arg),*),
            "--+--+0" => $f::<$crate::algs::Ammpmmpn $(, $g)*>($($arg),*),
            "+++0000" => $f::<$crate::algs::Apppnnnn $(, $g)*>($($arg),*),
            "+++++++-" => $f::<$crate::algs::Apppppppm $(, $g)*>($($arg),*),
            "-+++++++" => $f::<$crate::algs::Amppppppp $(, $g)*>($($arg),*),
            "++-----0" => $f::<$crate::algs::Appmmmmmn $(, $g)*>($($arg),*),
            "----0000" => $f::<$crate::algs::Ammmmnnnn $(, $g)*>($($arg),*),
            "+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmp $(, $g)*>($($arg),*),
            "-++--+000" => $f::<$crate::algs::Amppmmpnnn $(, $g)*>($($arg),*),
            "----++++0" => $f::<$crate::algs::Ammmmppppn $(, $g)*>($($arg),*),
            "+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpm $(, $g)*>($($arg),*),
            "-+++--+-00" => $f::<$crate::algs::Ampppmmpmnn $(, $g)*>($($arg),*),
            "++++++++++" => $f::<$crate::algs::Apppppppppp $(, $g)*>($($arg),*),
            "+-000000" => $f::<$crate::algs::Apmnnnnnn $(, $g)*>($($arg),*),
            "-0000000" => $f::<$crate::algs::Amnnnnnnn $(, $g)*>($($arg),*),
            "+-+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmpmp $(, $g)*>($($arg),*),
            "++--+++-000" => $f::<$crate::algs::Appmmpppmnnn $(, $g)*>($($arg),*),
            "-+-+-+-+-+-+" => $f::<$crate::algs::Ampmpmpmpmpmp $(, $g)*>($($arg),*),
            "++++----0000" => $f::<$crate::algs::Appppmmmmnnnn $(, $g)*>($($arg),*),
            "--+-+-++-+-0" => $f::<$crate::algs::Ammpmpmppmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-+" => $f::<$crate::algs::Apppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++" => $f::<$crate::algs::Appmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+-" => $f::<$crate::algs::Appmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---" => $f::<$crate::algs::Appmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+++" => $f::<$crate::algs::Apmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-" => $f::<$crate::algs::Apmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--" => $f::<$crate::algs::Apmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--++" => $f::<$crate::algs::Apmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+-" => $f::<$crate::algs::Apmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+" => $f::<$crate::algs::Apmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++-" => $f::<$crate::algs::Ampppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+" => $f::<$crate::algs::Amppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++--" => $f::<$crate::algs::Amppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-++" => $f::<$crate::algs::Ampmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--+" => $f::<$crate::algs::Ampmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+---" => $f::<$crate::algs::Ampmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++" => $f::<$crate::algs::Ammppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++-" => $f::<$crate::algs::Ammppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-+" => $f::<$crate::algs::Ammpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+--" => $f::<$crate::algs::Ammpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---++" => $f::<$crate::algs::Ammmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-" => $f::<$crate::algs::Ammmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----+" => $f::<$crate::algs::Ammmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-0" => $f::<$crate::algs::Apppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+0" => $f::<$crate::algs::Appmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--0" => $f::<$crate::algs::Appmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++0" => $f::<$crate::algs::Apmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+0" => $f::<$crate::algs::Apmmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---0" => $f::<$crate::algs::Apmmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-0" => $f::<$crate::algs::Amppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+0" => $f::<$crate::algs::Ampmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--0" => $f::<$crate::algs::Ampmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++0" => $f::<$crate::algs::Ammppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+0" => $f::<$crate::algs::Ammmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-00" => $f::<$crate::algs::Appmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+00" => $f::<$crate::algs::Apmpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-00" => $f::<$crate::algs::Ampmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+00" => $f::<$crate::algs::Ammpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+000" => $f::<$crate::algs::Ampnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++++-+" => $f::<$crate::algs::Appppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-++" => $f::<$crate::algs::Apppmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-+-" => $f::<$crate::algs::Apppmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++--+" => $f::<$crate::algs::Apppmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+++" => $f::<$crate::algs::Appmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++-" => $f::<$crate::algs::Appmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+-+" => $f::<$crate::algs::Appmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+--" => $f::<$crate::algs::Appmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--++" => $f::<$crate::algs::Appmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--+-" => $f::<$crate::algs::Appmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---+" => $f::<$crate::algs::Appmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++----" => $f::<$crate::algs::Appmmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++++" => $f::<$crate::algs::Apmpppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+++-" => $f::<$crate::algs::Apmpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-+" => $f::<$crate::algs::Apmppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++--" => $f::<$crate::algs::Apmppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+-++" => $f::<$crate::algs::Apmpmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+" => $f::<$crate::algs::Apmpmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+---" => $f::<$crate::algs::Apmpmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+++" => $f::<$crate::algs::Apmmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--++-" => $f::<$crate::algs::Apmmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+-+" => $f::<$crate::algs::Apmmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+--" => $f::<$crate::algs::Apmmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---++" => $f::<$crate::algs::Apmmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+-" => $f::<$crate::algs::Apmmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+----+" => $f::<$crate::algs::Apmmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++++-" => $f::<$crate::algs::Amppppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++-+" => $f::<$crate::algs::Ampppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++--" => $f::<$crate::algs::Ampppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-++" => $f::<$crate::algs::Amppmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-" => $f::<$crate::algs::Amppmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++--+" => $f::<$crate::algs::Amppmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++---" => $f::<$crate::algs::Amppmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++" => $f::<$crate::algs::Ampmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-++-" => $f::<$crate::algs::Ampmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+--" => $f::<$crate::algs::Ampmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--++" => $f::<$crate::algs::Ampmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+---+" => $f::<$crate::algs::Ampmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+----" => $f::<$crate::algs::Ampmmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++++" => $f::<$crate::algs::Ammpppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++-" => $f::<$crate::algs::Ammpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++-+" => $f::<$crate::algs::Ammppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++--" => $f::<$crate::algs::Ammppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-+-" => $f::<$crate::algs::Ammpmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+--+" => $f::<$crate::algs::Ammpmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+---" => $f::<$crate::algs::Ammpmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+++" => $f::<$crate::algs::Ammmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---++-" => $f::<$crate::algs::Ammmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-+" => $f::<$crate::algs::Ammmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+--" => $f::<$crate::algs::Ammmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----++" => $f::<$crate::algs::Ammmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----+-" => $f::<$crate::algs::Ammmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-----+" => $f::<$crate::algs::Ammmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++++-0" => $f::<$crate::algs::Appppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-+0" => $f::<$crate::algs::Apppmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++--0" => $f::<$crate::algs::Apppmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++0" => $f::<$crate::algs::Appmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+-0" => $f::<$crate::algs::Appmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--+0" => $f::<$crate::algs::Appmmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---0" => $f::<$crate::algs::Appmmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-0" => $f::<$crate::algs::Apmppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+-+0" => $f::<$crate::algs::Apmpmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--0" => $f::<$crate::algs::Apmpmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--++0" => $f::<$crate::algs::Apmmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+-0" => $f::<$crate::algs::Apmmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+0" => $f::<$crate::algs::Apmmmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+----0" => $f::<$crate::algs::Apmmmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++++0" => $f::<$crate::algs::Amppppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++-0" => $f::<$crate::algs::Ampppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++--0" => $f::<$crate::algs::Amppmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-++0" => $f::<$crate::algs::Ampmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+-0" => $f::<$crate::algs::Ampmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--+0" => $f::<$crate::algs::Ampmmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+---0" => $f::<$crate::algs::Ampmmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++0" => $f::<$crate::algs::Ammpppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-+0" => $f::<$crate::algs::Ammpmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---++0" => $f::<$crate::algs::Ammmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-0" => $f::<$crate::algs::Ammmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----+0" => $f::<$crate::algs::Ammmmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-00" => $f::<$crate::algs::Apppmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--00" => $f::<$crate::algs::Appmmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++00" => $f::<$crate::algs::Apmppnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+00" => $f::<$crate::algs::Apmmpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++00" => $f::<$crate::algs::Ampppnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-00" => $f::<$crate::algs::Amppmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+00" => $f::<$crate::algs::Ampmpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--00" => $f::<$crate::algs::Ampmmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-00" => $f::<$crate::algs::Ammpmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+00" => $f::<$crate::algs::Ammmpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-000" => $f::<$crate::algs::Appmnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--000" => $f::<$crate::algs::Apmmnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++000" => $f::<$crate::algs::Amppnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+000" => $f::<$crate::algs::Ammpnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+0000" => $f::<$crate::algs::Ampnnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-++-" => $f::<$crate::algs::Apppmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++-+" => $f::<$crate::algs::Appmppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--+--" => $f::<$crate::algs::Appmmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-++" => $f::<$crate::algs::Apmppmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+-" => $f::<$crate::algs::Apmpmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+--+" => $f::<$crate::algs::Apmmpmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++" => $f::<$crate::algs::Amppmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++-" => $f::<$crate::algs::Ampmpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--+-+" => $f::<$crate::algs::Ampmmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++--" => $f::<$crate::algs::Ammpppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+--++" => $f::<$crate::algs::Ammpmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-+-" => $f::<$crate::algs::Ammmpmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "------+" => $f::<$crate::algs::Ammmmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++---0" => $f::<$crate::algs::Apppmmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++++0" => $f::<$crate::algs::Apmppppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--++-0" => $f::<$crate::algs::Apmmppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++-+0" => $f::<$crate::algs::Ampppmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+--0" => $f::<$crate::algs::Ampmpmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-++0" => $f::<$crate::algs::Ammpmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----+-0" => $f::<$crate::algs::Ammmmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--+00" => $f::<$crate::algs::Appmmpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+----00" => $f::<$crate::algs::Apmmmmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-000" => $f::<$crate::algs::Apppmnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+000" => $f::<$crate::algs::Ampmpnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--0000" => $f::<$crate::algs::Apmmnnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+000000" => $f::<$crate::algs::Apnnnnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++---+-" => $f::<$crate::algs::Apppmmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---+-+" => $f::<$crate::algs::Appmmmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+-+---" => $f::<$crate::algs::Apmpmpmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+-++" => $f::<$crate::algs::Apmmmpmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++-" => $f::<$crate::algs::Amppmpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+---+" => $f::<$crate::algs::Ampmpmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++-+--" => $f::<$crate::algs::Ammppmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-+++" => $f::<$crate::algs::Ammmpmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++++-+-0" => $f::<$crate::algs::Appppmpmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+++-+0" => $f::<$crate::algs::Apmpppmpn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+------0" => $f::<$crate::algs::Apmmmmmmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+---++0" => $f::<$crate::algs::Ampmmmppn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----++-0" => $f::<$crate::algs::Ammmmppmn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+00" => $f::<$crate::algs::Apmpmmpnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++--00" => $f::<$crate::algs::Ammppmmnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++++000" => $f::<$crate::algs::Amppppnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-0000" => $f::<$crate::algs::Ammpmnnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-+-+--" => $f::<$crate::algs::Amppmpmpmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+-+--0000" => $f::<$crate::algs::Ampmpmpmmnnnn $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++++----++00" => $f::<$crate::algs::Appppmmmmppnn $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_all_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+" => $f::<$crate::algs::Ap $(, $g)*, 1>($($arg),*),
            "-" => $f::<$crate::algs::Am $(, $g)*, 1>($($arg),*),
            "0" => $f::<$crate::algs::An $(, $g)*, 1>($($arg),*),
            "++" => $f::<$crate::algs::App $(, $g)*, 2>($($arg),*),
            "+-" => $f::<$crate::algs::Apm $(, $g)*, 2>($($arg),*),
            "-+" => $f::<$crate::algs::Amp $(, $g)*, 2>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*, 2>($($arg),*),
            "+0" => $f::<$crate::algs::Apn $(, $g)*, 2>($($arg),*),
            "-0" => $f::<$crate::algs::Amn $(, $g)*, 2>($($arg),*),
            "00" => $f::<$crate::algs::Ann $(, $g)*, 2>($($arg),*),
            "+++" => $f::<$crate::algs::Appp $(, $g)*, 3>($($arg),*),
            "++-" => $f::<$crate::algs::Appm $(, $g)*, 3>($($arg),*),
            "+-+" => $f::<$crate::algs::Apmp $(, $g)*, 3>($($arg),*),
            "+--" => $f::<$crate::algs::Apmm $(, $g)*, 3>($($arg),*),
            "-++" => $f::<$crate::algs::Ampp $(, $g)*, 3>($($arg),*),
            "-+-" => $f::<$crate::algs::Ampm $(, $g)*, 3>($($arg),*),
            "--+" => $f::<$crate::algs::Ammp $(, $g)*, 3>($($arg),*),
            "---" => $f::<$crate::algs::Ammm $(, $g)*, 3>($($arg),*),
            "++0" => $f::<$crate::algs::Appn $(, $g)*, 3>($($arg),*),
            "+-0" => $f::<$crate::algs::Apmn $(, $g)*, 3>($($arg),*),
            "-+0" => $f::<$crate::algs::Ampn $(, $g)*, 3>($($arg),*),
            "--0" => $f::<$crate::algs::Ammn $(, $g)*, 3>($($arg),*),
            "+00" => $f::<$crate::algs::Apnn $(, $g)*, 3>($($arg),*),
            "-00" => $f::<$crate::algs::Amnn $(, $g)*, 3>($($arg),*),
            "000" => $f::<$crate::algs::Annn $(, $g)*, 3>($($arg),*),
            "++++" => $f::<$crate::algs::Apppp $(, $g)*, 4>($($arg),*),
            "+++-" => $f::<$crate::algs::Apppm $(, $g)*, 4>($($arg),*),
            "++-+" => $f::<$crate::algs::Appmp $(, $g)*, 4>($($arg),*),
            "++--" => $f::<$crate::algs::Appmm $(, $g)*, 4>($($arg),*),
            "+-++" => $f::<$crate::algs::Apmpp $(, $g)*, 4>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*, 4>($($arg),*),
            "+--+" => $f::<$crate::algs::Apmmp $(, $g)*, 4>($($arg),*),
            "+---" => $f::<$crate::algs::Apmmm $(, $g)*, 4>($($arg),*),
            "-+++" => $f::<$crate::algs::Amppp $(, $g)*, 4>($($arg),*),
            "-++-" => $f::<$crate::algs::Amppm $(, $g)*, 4>($($arg),*),
            "-+-+" => $f::<$crate::algs::Ampmp $(, $g)*, 4>($($arg),*),
            "-+--" => $f::<$crate::algs::Ampmm $(, $g)*, 4>($($arg),*),
            "--++" => $f::<$crate::algs::Ammpp $(, $g)*, 4>($($arg),*),
            "--+-" => $f::<$crate::algs::Ammpm $(, $g)*, 4>($($arg),*),
            "---+" => $f::<$crate::algs::Ammmp $(, $g)*, 4>($($arg),*),
            "----" => $f::<$crate::algs::Ammmm $(, $g)*, 4>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*, 4>($($arg),*),
            "++-0" => $f::<$crate::algs::Appmn $(, $g)*, 4>($($arg),*),
            "+-+0" => $f::<$crate::algs::Apmpn $(, $g)*, 4>($($arg),*),
            "+--0" => $f::<$crate::algs::Apmmn $(, $g)*, 4>($($arg),*),
            "-++0" => $f::<$crate::algs::Amppn $(, $g)*, 4>($($arg),*),
            "-+-0" => $f::<$crate::algs::Ampmn $(, $g)*, 4>($($arg),*),
            "--+0" => $f::<$crate::algs::Ammpn $(, $g)*, 4>($($arg),*),
            "---0" => $f::<$crate::algs::Ammmn $(, $g)*, 4>($($arg),*),
            "++00" => $f::<$crate::algs::Appnn $(, $g)*, 4>($($arg),*),
            "+-00" => $f::<$crate::algs::Apmnn $(, $g)*, 4>($($arg),*),
            "-+00" => $f::<$crate::algs::Ampnn $(, $g)*, 4>($($arg),*),
            "--00" => $f::<$crate::algs::Ammnn $(, $g)*, 4>($($arg),*),
            "+000" => $f::<$crate::algs::Apnnn $(, $g)*, 4>($($arg),*),
            "-000" => $f::<$crate::algs::Amnnn $(, $g)*, 4>($($arg),*),
            "0000" => $f::<$crate::algs::Annnn $(, $g)*, 4>($($arg),*),
            "+++++" => $f::<$crate::algs::Appppp $(, $g)*, 5>($($arg),*),
            "-----" => $f::<$crate::algs::Ammmmm $(, $g)*, 5>($($arg),*),
            "00000" => $f::<$crate::algs::Annnnn $(, $g)*, 5>($($arg),*),
            "+-+-+" => $f::<$crate::algs::Apmpmp $(, $g)*, 5>($($arg),*),
            "-+-+-" => $f::<$crate::algs::Ampmpm $(, $g)*, 5>($($arg),*),
            "++--+" => $f::<$crate::algs::Appmmp $(, $g)*, 5>($($arg),*),
            "+++--" => $f::<$crate::algs::Apppmm $(, $g)*, 5>($($arg),*),
            "-+++0" => $f::<$crate::algs::Ampppn $(, $g)*, 5>($($arg),*),
            "++++0" => $f::<$crate::algs::Appppn $(, $g)*, 5>($($arg),*),
            "----0" => $f::<$crate::algs::Ammmmn $(, $g)*, 5>($($arg),*),
            "+--00" => $f::<$crate::algs::Apmmnn $(, $g)*, 5>($($arg),*),
            "-++00" => $f::<$crate::algs::Amppnn $(, $g)*, 5>($($arg),*),
            "+-000" => $f::<$crate::algs::Apmnnn $(, $g)*, 5>($($arg),*),
            "--000" => $f::<$crate::algs::Ammnnn $(, $g)*, 5>($($arg),*),
            "+0000" => $f::<$crate::algs::Apnnnn $(, $g)*, 5>($($arg),*),
            "-0000" => $f::<$crate::algs::Amnnnn $(, $g)*, 5>($($arg),*),
            "++++-" => $f::<$crate::algs::Appppm $(, $g)*, 5>($($arg),*),
            "-++++" => $f::<$crate::algs::Ampppp $(, $g)*, 5>($($arg),*),
            "+----" => $f::<$crate::algs::Apmmmm $(, $g)*, 5>($($arg),*),
            "--+-0" => $f::<$crate::algs::Ammpmn $(, $g)*, 5>($($arg),*),
            "+-+-0" => $f::<$crate::algs::Apmpmn $(, $g)*, 5>($($arg),*),
            "---00" => $f::<$crate::algs::Ammmnn $(, $g)*, 5>($($arg),*),
            "+++00" => $f::<$crate::algs::Apppnn $(, $g)*, 5>($($arg),*),
            "++000" => $f::<$crate::algs::Appnnn $(, $g)*, 5>($($arg),*),
            "++++++" => $f::<$crate::algs::Apppppp $(, $g)*, 6>($($arg),*),
            "------" => $f::<$crate::algs::Ammmmmm $(, $g)*, 6>($($arg),*),
            "000000" => $f::<$crate::algs::Annnnnn $(, $g)*, 6>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*, 6>($($arg),*),
            "-+-+-+" => $f::<$crate::algs::Ampmpmp $(, $g)*, 6>($($arg),*),
            "+++---" => $f::<$crate::algs::Apppmmm $(, $g)*, 6>($($arg),*),
            "--+-++" => $f::<$crate::algs::Ammpmpp $(, $g)*, 6>($($arg),*),
            "+++++0" => $f::<$crate::algs::Apppppn $(, $g)*, 6>($($arg),*),
            "-++-+0" => $f::<$crate::algs::Amppmpn $(, $g)*, 6>($($arg),*),
            "-----0" => $f::<$crate::algs::Ammmmmn $(, $g)*, 6>($($arg),*),
            "++++00" => $f::<$crate::algs::Appppnn $(, $g)*, 6>($($arg),*),
            "+-+-00" => $f::<$crate::algs::Apmpmnn $(, $g)*, 6>($($arg),*),
            "--++00" => $f::<$crate::algs::Ammppnn $(, $g)*, 6>($($arg),*),
            "-+-000" => $f::<$crate::algs::Ampmnnn $(, $g)*, 6>($($arg),*),
            "+++000" => $f::<$crate::algs::Apppnnn $(, $g)*, 6>($($arg),*),
            "+-0000" => $f::<$crate::algs::Apmnnnn $(, $g)*, 6>($($arg),*),
            "--0000" => $f::<$crate::algs::Ammnnnn $(, $g)*, 6>($($arg),*),
            "-00000" => $f::<$crate::algs::Amnnnnn $(, $g)*, 6>($($arg),*),
            "+++++-" => $f::<$crate::algs::Apppppm $(, $g)*, 6>($($arg),*),
            "-+++++" => $f::<$crate::algs::Amppppp $(, $g)*, 6>($($arg),*),
            "+-----" => $f::<$crate::algs::Apmmmmm $(, $g)*, 6>($($arg),*),
            "++++--" => $f::<$crate::algs::Appppmm $(, $g)*, 6>($($arg),*),
            "-+--+-" => $f::<$crate::algs::Ampmmpm $(, $g)*, 6>($($arg),*),
            "--++-0" => $f::<$crate::algs::Ammppmn $(, $g)*, 6>($($arg),*),
            "+-+++0" => $f::<$crate::algs::Apmpppn $(, $g)*, 6>($($arg),*),
            "--+--0" => $f::<$crate::algs::Ammpmmn $(, $g)*, 6>($($arg),*),
            "+---00" => $f::<$crate::algs::Apmmmnn $(, $g)*, 6>($($arg),*),
            "++-+00" => $f::<$crate::algs::Appmpnn $(, $g)*, 6>($($arg),*),
            "----00" => $f::<$crate::algs::Ammmmnn $(, $g)*, 6>($($arg),*),
            "+-+000" => $f::<$crate::algs::Apmpnnn $(, $g)*, 6>($($arg),*),
            "---000" => $f::<$crate::algs::Ammmnnn $(, $g)*, 6>($($arg),*),
            "++0000" => $f::<$crate::algs::Appnnnn $(, $g)*, 6>($($arg),*),
            "+00000" => $f::<$crate::algs::Apnnnnn $(, $g)*, 6>($($arg),*),
            "+++++++" => $f::<$crate::algs::Appppppp $(, $g)*, 7>($($arg),*),
            "-------" => $f::<$crate::algs::Ammmmmmm $(, $g)*, 7>($($arg),*),
            "0000000" => $f::<$crate::algs::Annnnnnn $(, $g)*, 7>($($arg),*),
            "+-+-+-+" => $f::<$crate::algs::Apmpmpmp $(, $g)*, 7>($($arg),*),
            "-++-+-0" => $f::<$crate::algs::Amppmpmn $(, $g)*, 7>($($arg),*),
            "++++++0" => $f::<$crate::algs::Appppppn $(, $g)*, 7>($($arg),*),
            "+-+-000" => $f::<$crate::algs::Apmpmnnn $(, $g)*, 7>($($arg),*),
            "-+-0000" => $f::<$crate::algs::Ampmnnnn $(, $g)*, 7>($($arg),*),
            "--+++00" => $f::<$crate::algs::Ammpppnn $(, $g)*, 7>($($arg),*),
            "++++++++" => $f::<$crate::algs::Apppppppp $(, $g)*, 8>($($arg),*),
            "--------" => $f::<$crate::algs::Ammmmmmmm $(, $g)*, 8>($($arg),*),
            "+-+-+-+-" => $f::<$crate::algs::Apmpmpmpm $(, $g)*, 8>($($arg),*),
            "-+-+++--" => $f::<$crate::algs::Ampmpppmm $(, $g)*, 8>($($arg),*),
            "+++++++0" => $f::<$crate::algs::Apppppppn $(, $g)*, 8>($($arg),*),
            "++--+-00" => $f::<$crate::algs::Appmmpmnn $(, $g)*, 8>($($arg),*),
            "+-+-0000" => $f::<$crate::algs::Apmpmnnnn $(, $g)*, 8>($($arg),*),
            "00000000" => $f::<$crate::algs::Annnnnnnn $(, $g)*, 8>($($arg),*),
            "-++-+000" => $f::<$crate::algs::Amppmpnnn $(, $g)*, 8>($($arg),*),
            "++++++-" => $f::<$crate::algs::Appppppm $(, $g)*, 7>($($arg),*),
            "+------" => $f::<$crate::algs::Apmmmmmm $(, $g)*, 7>($($arg),*),
            "--+--+0" => $f::<$crate::algs::Ammpmmpn $(, $g)*, 7>($($arg),*),
            "+++0000" => $f::<$crate::algs::Apppnnnn $(, $g)*, 7>($($arg),*),
            "+++++++-" => $f::<$crate::algs::Apppppppm $(, $g)*, 8>($($arg),*),
            "-+++++++" => $f::<$crate::algs::Amppppppp $(, $g)*, 8>($($arg),*),
            "++-----0" => $f::<$crate::algs::Appmmmmmn $(, $g)*, 8>($($arg),*),
            "----0000" => $f::<$crate::algs::Ammmmnnnn $(, $g)*, 8>($($arg),*),
            "+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmp $(, $g)*, 9>($($arg),*),
            "-++--+000" => $f::<$crate::algs::Amppmmpnnn $(, $g)*, 9>($($arg),*),
            "----++++0" => $f::<$crate::algs::Ammmmppppn $(, $g)*, 9>($($arg),*),
            "+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpm $(, $g)*, 10>($($arg),*),
            "-+++--+-00" => $f::<$crate::algs::Ampppmmpmnn $(, $g)*, 10>($($arg),*),
            "++++++++++" => $f::<$crate::algs::Apppppppppp $(, $g)*, 10>($($arg),*),
            "+-000000" => $f::<$crate::algs::Apmnnnnnn $(, $g)*, 8>($($arg),*),
            "-0000000" => $f::<$crate::algs::Amnnnnnnn $(, $g)*, 8>($($arg),*),
            "+-+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmpmp $(, $g)*, 11>($($arg),*),
            "++--+++-000" => $f::<$crate::algs::Appmmpppmnnn $(, $g)*, 11>($($arg),*),
            "-+-+-+-+-+-+" => $f::<$crate::algs::Ampmpmpmpmpmp $(, $g)*, 12>($($arg),*),
            "++++----0000" => $f::<$crate::algs::Appppmmmmnnnn $(, $g)*, 12>($($arg),*),
            "--+-+-++-+-0" => $f::<$crate::algs::Ammpmpmppmpmn $(, $g)*, 12>($($arg),*),
            #[cfg(feature = "wide")] "+++-+" => $f::<$crate::algs::Apppmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++-++" => $f::<$crate::algs::Appmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++-+-" => $f::<$crate::algs::Appmpm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++---" => $f::<$crate::algs::Appmmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-+++" => $f::<$crate::algs::Apmppp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-++-" => $f::<$crate::algs::Apmppm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-+--" => $f::<$crate::algs::Apmpmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+--++" => $f::<$crate::algs::Apmmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+--+-" => $f::<$crate::algs::Apmmpm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+---+" => $f::<$crate::algs::Apmmmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+++-" => $f::<$crate::algs::Ampppm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-++-+" => $f::<$crate::algs::Amppmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-++--" => $f::<$crate::algs::Amppmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+-++" => $f::<$crate::algs::Ampmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+--+" => $f::<$crate::algs::Ampmmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+---" => $f::<$crate::algs::Ampmmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+++" => $f::<$crate::algs::Ammppp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--++-" => $f::<$crate::algs::Ammppm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+-+" => $f::<$crate::algs::Ammpmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+--" => $f::<$crate::algs::Ammpmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "---++" => $f::<$crate::algs::Ammmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "---+-" => $f::<$crate::algs::Ammmpm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "----+" => $f::<$crate::algs::Ammmmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+++-0" => $f::<$crate::algs::Apppmn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++-+0" => $f::<$crate::algs::Appmpn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++--0" => $f::<$crate::algs::Appmmn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-++0" => $f::<$crate::algs::Apmppn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+--+0" => $f::<$crate::algs::Apmmpn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+---0" => $f::<$crate::algs::Apmmmn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-++-0" => $f::<$crate::algs::Amppmn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+-+0" => $f::<$crate::algs::Ampmpn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+--0" => $f::<$crate::algs::Ampmmn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--++0" => $f::<$crate::algs::Ammppn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "---+0" => $f::<$crate::algs::Ammmpn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++-00" => $f::<$crate::algs::Appmnn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-+00" => $f::<$crate::algs::Apmpnn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+-00" => $f::<$crate::algs::Ampmnn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+00" => $f::<$crate::algs::Ammpnn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+000" => $f::<$crate::algs::Ampnnn $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++++-+" => $f::<$crate::algs::Appppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-++" => $f::<$crate::algs::Apppmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-+-" => $f::<$crate::algs::Apppmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++--+" => $f::<$crate::algs::Apppmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+++" => $f::<$crate::algs::Appmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-++-" => $f::<$crate::algs::Appmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+-+" => $f::<$crate::algs::Appmpmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+--" => $f::<$crate::algs::Appmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++--++" => $f::<$crate::algs::Appmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++--+-" => $f::<$crate::algs::Appmmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++---+" => $f::<$crate::algs::Appmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++----" => $f::<$crate::algs::Appmmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++++" => $f::<$crate::algs::Apmpppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+++-" => $f::<$crate::algs::Apmpppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++-+" => $f::<$crate::algs::Apmppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++--" => $f::<$crate::algs::Apmppmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+-++" => $f::<$crate::algs::Apmpmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+" => $f::<$crate::algs::Apmpmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+---" => $f::<$crate::algs::Apmpmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+++" => $f::<$crate::algs::Apmmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--++-" => $f::<$crate::algs::Apmmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+-+" => $f::<$crate::algs::Apmmpmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+--" => $f::<$crate::algs::Apmmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+---++" => $f::<$crate::algs::Apmmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+---+-" => $f::<$crate::algs::Apmmmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+----+" => $f::<$crate::algs::Apmmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++++-" => $f::<$crate::algs::Amppppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+++-+" => $f::<$crate::algs::Ampppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+++--" => $f::<$crate::algs::Ampppmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++-++" => $f::<$crate::algs::Amppmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-" => $f::<$crate::algs::Amppmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++--+" => $f::<$crate::algs::Amppmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++---" => $f::<$crate::algs::Amppmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++" => $f::<$crate::algs::Ampmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-++-" => $f::<$crate::algs::Ampmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-+--" => $f::<$crate::algs::Ampmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+--++" => $f::<$crate::algs::Ampmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+---+" => $f::<$crate::algs::Ampmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+----" => $f::<$crate::algs::Ampmmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--++++" => $f::<$crate::algs::Ammpppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+++-" => $f::<$crate::algs::Ammpppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--++-+" => $f::<$crate::algs::Ammppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--++--" => $f::<$crate::algs::Ammppmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+-+-" => $f::<$crate::algs::Ammpmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+--+" => $f::<$crate::algs::Ammpmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+---" => $f::<$crate::algs::Ammpmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+++" => $f::<$crate::algs::Ammmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---++-" => $f::<$crate::algs::Ammmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+-+" => $f::<$crate::algs::Ammmpmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+--" => $f::<$crate::algs::Ammmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "----++" => $f::<$crate::algs::Ammmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "----+-" => $f::<$crate::algs::Ammmmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-----+" => $f::<$crate::algs::Ammmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++++-0" => $f::<$crate::algs::Appppmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-+0" => $f::<$crate::algs::Apppmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++--0" => $f::<$crate::algs::Apppmmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-++0" => $f::<$crate::algs::Appmppn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+-0" => $f::<$crate::algs::Appmpmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++--+0" => $f::<$crate::algs::Appmmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++---0" => $f::<$crate::algs::Appmmmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++-0" => $f::<$crate::algs::Apmppmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+-+0" => $f::<$crate::algs::Apmpmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+--0" => $f::<$crate::algs::Apmpmmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--++0" => $f::<$crate::algs::Apmmppn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+-0" => $f::<$crate::algs::Apmmpmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+---+0" => $f::<$crate::algs::Apmmmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+----0" => $f::<$crate::algs::Apmmmmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++++0" => $f::<$crate::algs::Amppppn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+++-0" => $f::<$crate::algs::Ampppmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++--0" => $f::<$crate::algs::Amppmmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-++0" => $f::<$crate::algs::Ampmppn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-+-0" => $f::<$crate::algs::Ampmpmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+--+0" => $f::<$crate::algs::Ampmmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+---0" => $f::<$crate::algs::Ampmmmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+++0" => $f::<$crate::algs::Ammpppn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+-+0" => $f::<$crate::algs::Ammpmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---++0" => $f::<$crate::algs::Ammmppn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+-0" => $f::<$crate::algs::Ammmpmn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "----+0" => $f::<$crate::algs::Ammmmpn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-00" => $f::<$crate::algs::Apppmnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++--00" => $f::<$crate::algs::Appmmnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++00" => $f::<$crate::algs::Apmppnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+00" => $f::<$crate::algs::Apmmpnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+++00" => $f::<$crate::algs::Ampppnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++-00" => $f::<$crate::algs::Amppmnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-+00" => $f::<$crate::algs::Ampmpnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+--00" => $f::<$crate::algs::Ampmmnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+-00" => $f::<$crate::algs::Ammpmnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+00" => $f::<$crate::algs::Ammmpnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-000" => $f::<$crate::algs::Appmnnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--000" => $f::<$crate::algs::Apmmnnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++000" => $f::<$crate::algs::Amppnnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+000" => $f::<$crate::algs::Ammpnnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+0000" => $f::<$crate::algs::Ampnnnn $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-++-" => $f::<$crate::algs::Apppmppm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "++-++-+" => $f::<$crate::algs::Appmppmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "++--+--" => $f::<$crate::algs::Appmmpmm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+-++-++" => $f::<$crate::algs::Apmppmpp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+-" => $f::<$crate::algs::Apmpmmpm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+--+--+" => $f::<$crate::algs::Apmmpmmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++" => $f::<$crate::algs::Amppmppp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++-" => $f::<$crate::algs::Ampmpppm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+--+-+" => $f::<$crate::algs::Ampmmpmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "--+++--" => $f::<$crate::algs::Ammpppmm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "--+--++" => $f::<$crate::algs::Ammpmmpp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "---+-+-" => $f::<$crate::algs::Ammmpmpm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "------+" => $f::<$crate::algs::Ammmmmmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+++---0" => $f::<$crate::algs::Apppmmmn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+-++++0" => $f::<$crate::algs::Apmppppn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+--++-0" => $f::<$crate::algs::Apmmppmn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+++-+0" => $f::<$crate::algs::Ampppmpn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+-+--0" => $f::<$crate::algs::Ampmpmmn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "--+-++0" => $f::<$crate::algs::Ammpmppn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "----+-0" => $f::<$crate::algs::Ammmmpmn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "++--+00" => $f::<$crate::algs::Appmmpnn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+----00" => $f::<$crate::algs::Apmmmmnn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+++-000" => $f::<$crate::algs::Apppmnnn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+-+000" => $f::<$crate::algs::Ampmpnnn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+--0000" => $f::<$crate::algs::Apmmnnnn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+000000" => $f::<$crate::algs::Apnnnnnn $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+++---+-" => $f::<$crate::algs::Apppmmmpm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "++---+-+" => $f::<$crate::algs::Appmmmpmp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+-+-+---" => $f::<$crate::algs::Apmpmpmmm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+---+-++" => $f::<$crate::algs::Apmmmpmpp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++-" => $f::<$crate::algs::Amppmpppm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-+-+---+" => $f::<$crate::algs::Ampmpmmmp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "--++-+--" => $f::<$crate::algs::Ammppmpmm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "---+-+++" => $f::<$crate::algs::Ammmpmppp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "++++-+-0" => $f::<$crate::algs::Appppmpmn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+-+++-+0" => $f::<$crate::algs::Apmpppmpn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+------0" => $f::<$crate::algs::Apmmmmmmn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-+---++0" => $f::<$crate::algs::Ampmmmppn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "----++-0" => $f::<$crate::algs::Ammmmppmn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+00" => $f::<$crate::algs::Apmpmmpnn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "--++--00" => $f::<$crate::algs::Ammppmmnn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-++++000" => $f::<$crate::algs::Amppppnnn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "--+-0000" => $f::<$crate::algs::Ammpmnnnn $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-+-+--" => $f::<$crate::algs::Amppmpmpmpmm $(, $g)*, 11>($($arg),*),
            #[cfg(feature = "wide")] "-+-+-+--0000" => $f::<$crate::algs::Ampmpmpmmnnnn $(, $g)*, 12>($($arg),*),
            #[cfg(feature = "wide")] "++++----++00" => $f::<$crate::algs::Appppmmmmppnn $(, $g)*, 12>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// A small selection for laws that are instantiated over many coefficient types
pub fn sigs_few() -> Vec<&'static str> {
    vec![
        "+",
        "-",
        "0",
        "--",
        "+-",
        "+0",
        "+++",
        "-++0",
        "++-",
        "+-+-",
        "--00",
        "+++0",
        "+--00",
        "-+++0",
        "+-+-+",
        #[cfg(feature = "wide")] "++--0",
        "+-+-+-",
        "-++-+0",
        "+-+-00",
        "+-+-+-+",
        "-+-0000",
    ]
}
#[macro_export]
macro_rules! dispatch_few {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+" => $f::<$crate::algs::Ap $(, $g)*>($($arg),*),
            "-" => $f::<$crate::algs::Am $(, $g)*>($($arg),*),
            "0" => $f::<$crate::algs::An $(, $g)*>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*>($($arg),*),
            "+-" => $f::<$crate::algs::Apm $(, $g)*>($($arg),*),
            "+0" => $f::<$crate::algs::Apn $(, $g)*>($($arg),*),
            "+++" => $f::<$crate::algs::Appp $(, $g)*>($($arg),*),
            "-++0" => $f::<$crate::algs::Amppn $(, $g)*>($($arg),*),
            "++-" => $f::<$crate::algs::Appm $(, $g)*>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*>($($arg),*),
            "--00" => $f::<$crate::algs::Ammnn $(, $g)*>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*>($($arg),*),
            "+--00" => $f::<$crate::algs::Apmmnn $(, $g)*>($($arg),*),
            "-+++0" => $f::<$crate::algs::Ampppn $(, $g)*>($($arg),*),
            "+-+-+" => $f::<$crate::algs::Apmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--0" => $f::<$crate::algs::Appmmn $(, $g)*>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*>($($arg),*),
            "-++-+0" => $f::<$crate::algs::Amppmpn $(, $g)*>($($arg),*),
            "+-+-00" => $f::<$crate::algs::Apmpmnn $(, $g)*>($($arg),*),
            "+-+-+-+" => $f::<$crate::algs::Apmpmpmp $(, $g)*>($($arg),*),
            "-+-0000" => $f::<$crate::algs::Ampmnnnn $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_few_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+" => $f::<$crate::algs::Ap $(, $g)*, 1>($($arg),*),
            "-" => $f::<$crate::algs::Am $(, $g)*, 1>($($arg),*),
            "0" => $f::<$crate::algs::An $(, $g)*, 1>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*, 2>($($arg),*),
            "+-" => $f::<$crate::algs::Apm $(, $g)*, 2>($($arg),*),
            "+0" => $f::<$crate::algs::Apn $(, $g)*, 2>($($arg),*),
            "+++" => $f::<$crate::algs::Appp $(, $g)*, 3>($($arg),*),
            "-++0" => $f::<$crate::algs::Amppn $(, $g)*, 4>($($arg),*),
            "++-" => $f::<$crate::algs::Appm $(, $g)*, 3>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*, 4>($($arg),*),
            "--00" => $f::<$crate::algs::Ammnn $(, $g)*, 4>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*, 4>($($arg),*),
            "+--00" => $f::<$crate::algs::Apmmnn $(, $g)*, 5>($($arg),*),
            "-+++0" => $f::<$crate::algs::Ampppn $(, $g)*, 5>($($arg),*),
            "+-+-+" => $f::<$crate::algs::Apmpmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++--0" => $f::<$crate::algs::Appmmn $(, $g)*, 5>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*, 6>($($arg),*),
            "-++-+0" => $f::<$crate::algs::Amppmpn $(, $g)*, 6>($($arg),*),
            "+-+-00" => $f::<$crate::algs::Apmpmnn $(, $g)*, 6>($($arg),*),
            "+-+-+-+" => $f::<$crate::algs::Apmpmpmp $(, $g)*, 7>($($arg),*),
            "-+-0000" => $f::<$crate::algs::Ampmnnnn $(, $g)*, 7>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// Signatures with many generators (sparse multivectors only)
pub fn sigs_big() -> Vec<&'static str> {
    vec![
        "++++++++++++",
        "-+-+-+-+-+-+0",
        "+-+-+-+-+-+-+-+-",
        "++-++-++-++-++-++-00",
        "+-+-+-+-+-+-+-+-+-+-",
        "-------------------------------",
        "++++++++++++++++++++++++++++++++",
        "+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-0",
        "-++-++-++-++-++-++-++-++-++-++-++-++-++-++-++000",
    ]
}
#[macro_export]
macro_rules! dispatch_big {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "++++++++++++" => $f::<$crate::algs::Apppppppppppp $(, $g)*>($($arg),*),
            "-+-+-+-+-+-+0" => $f::<$crate::algs::Ampmpmpmpmpmpn $(, $g)*>($($arg),*),
            "+-+-+-+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpmpmpmpm $(, $g)*>($($arg),*),
            "++-++-++-++-++-++-00" => $f::<$crate::algs::Appmppmppmppmppmppmnn $(, $g)*>($($arg),*),
            "+-+-+-+-+-+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpmpmpmpmpmpm $(, $g)*>($($arg),*),
            "-------------------------------" => $f::<$crate::algs::B31_5 $(, $g)*>($($arg),*),
            "++++++++++++++++++++++++++++++++" => $f::<$crate::algs::B32_6 $(, $g)*>($($arg),*),
            "+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-0" => $f::<$crate::algs::B33_7 $(, $g)*>($($arg),*),
            "-++-++-++-++-++-++-++-++-++-++-++-++-++-++-++000" => $f::<$crate::algs::B48_8 $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_big_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "++++++++++++" => $f::<$crate::algs::Apppppppppppp $(, $g)*, 12>($($arg),*),
            "-+-+-+-+-+-+0" => $f::<$crate::algs::Ampmpmpmpmpmpn $(, $g)*, 13>($($arg),*),
            "+-+-+-+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpmpmpmpm $(, $g)*, 16>($($arg),*),
            "++-++-++-++-++-++-00" => $f::<$crate::algs::Appmppmppmppmppmppmnn $(, $g)*, 20>($($arg),*),
            "+-+-+-+-+-+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpmpmpmpmpmpm $(, $g)*, 20>($($arg),*),
            "-------------------------------" => $f::<$crate::algs::B31_5 $(, $g)*, 31>($($arg),*),
            "++++++++++++++++++++++++++++++++" => $f::<$crate::algs::B32_6 $(, $g)*, 32>($($arg),*),
            "+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-0" => $f::<$crate::algs::B33_7 $(, $g)*, 33>($($arg),*),
            "-++-++-++-++-++-++-++-++-++-++-++-++-++-++-++000" => $f::<$crate::algs::B48_8 $(, $g)*, 48>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// Signatures with 13 to 16 generators for dense multivectors
pub fn sigs_vast() -> Vec<&'static str> {
    vec![
        "+-+-+-+-+-+-+",
        "+-+++-+--0000",
        "-++-+-+--++-00",
        "--+-++--+++-+-+",
        "--+++-+++-++-000",
    ]
}
#[macro_export]
macro_rules! dispatch_vast {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+-+-+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmpmpmp $(, $g)*>($($arg),*),
            "+-+++-+--0000" => $f::<$crate::algs::Apmpppmpmmnnnn $(, $g)*>($($arg),*),
            "-++-+-+--++-00" => $f::<$crate::algs::Amppmpmpmmppmnn $(, $g)*>($($arg),*),
            "--+-++--+++-+-+" => $f::<$crate::algs::Ammpmppmmpppmpmp $(, $g)*>($($arg),*),
            "--+++-+++-++-000" => $f::<$crate::algs::Ammpppmpppmppmnnn $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_vast_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+-+-+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmpmpmp $(, $g)*, 13>($($arg),*),
            "+-+++-+--0000" => $f::<$crate::algs::Apmpppmpmmnnnn $(, $g)*, 13>($($arg),*),
            "-++-+-+--++-00" => $f::<$crate::algs::Amppmpmpmmppmnn $(, $g)*, 14>($($arg),*),
            "--+-++--+++-+-+" => $f::<$crate::algs::Ammpmppmmpppmpmp $(, $g)*, 15>($($arg),*),
            "--+++-+++-++-000" => $f::<$crate::algs::Ammpppmpppmppmnnn $(, $g)*, 16>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// Signatures without null generators
pub fn sigs_nondeg() -> Vec<&'static str> {
    vec![
        "+",
        "-",
        "++",
        "+-",
        "-+",
        "--",
        "+++",
        "++-",
        "+-+",
        "+--",
        "-++",
        "-+-",
        "--+",
        "---",
        "++++",
        "+++-",
        "++-+",
        "++--",
        "+-++",
        "+-+-",
        "+--+",
        "+---",
        "-+++",
        "-++-",
        "-+-+",
        "-+--",
        "--++",
        "--+-",
        "---+",
        "----",
        "+++++",
        "-----",
        "+-+-+",
        "-+-+-",
        "++--+",
        "+++--",
        "++++-",
        "-++++",
        "+----",
        "++++++",
        "------",
        "+-+-+-",
        "-+-+-+",
        "+++---",
        "--+-++",
        "+++++-",
        "-+++++",
        "+-----",
        "++++--",
        "-+--+-",
        "+++++++",
        "-------",
        "+-+-+-+",
        "++++++++",
        "--------",
        "+-+-+-+-",
        "-+-+++--",
        "++++++-",
        "+------",
        "+++++++-",
        "-+++++++",
        "+-+-+-+-+",
        "+-+-+-+-+-",
        "++++++++++",
        "+-+-+-+-+-+",
        "-+-+-+-+-+-+",
        #[cfg(feature = "wide")] "+++-+",
        #[cfg(feature = "wide")] "++-++",
        #[cfg(feature = "wide")] "++-+-",
        #[cfg(feature = "wide")] "++---",
        #[cfg(feature = "wide")] "+-+++",
        #[cfg(feature = "wide")] "+-++-",
        #[cfg(feature = "wide")] "+-+--",
        #[cfg(feature = "wide")] "+--++",
        #[cfg(feature = "wide")] "+--+-",
        #[cfg(feature = "wide")] "+---+",
        #[cfg(feature = "wide")] "-+++-",
        #[cfg(feature = "wide")] "-++-+",
        #[cfg(feature = "wide")] "-++--",
        #[cfg(feature = "wide")] "-+-++",
        #[cfg(feature = "wide")] "-+--+",
        #[cfg(feature = "wide")] "-+---",
        #[cfg(feature = "wide")] "--+++",
        #[cfg(feature = "wide")] "--++-",
        #[cfg(feature = "wide")] "--+-+",
        #[cfg(feature = "wide")] "--+--",
        #[cfg(feature = "wide")] "---++",
        #[cfg(feature = "wide")] "---+-",
        #[cfg(feature = "wide")] "----+",
        #[cfg(feature = "wide")] "++++-+",
        #[cfg(feature = "wide")] "+++-++",
        #[cfg(feature = "wide")] "+++-+-",
        #[cfg(feature = "wide")] "+++--+",
        #[cfg(feature = "wide")] "++-+++",
        #[cfg(feature = "wide")] "++-++-",
        #[cfg(feature = "wide")] "++-+-+",
        #[cfg(feature = "wide")] "++-+--",
        #[cfg(feature = "wide")] "++--++",
        #[cfg(feature = "wide")] "++--+-",
        #[cfg(feature = "wide")] "++---+",
        #[cfg(feature = "wide")] "++----",
        #[cfg(feature = "wide")] "+-++++",
        #[cfg(feature = "wide")] "+-+++-",
        #[cfg(feature = "wide")] "+-++-+",
        #[cfg(feature = "wide")] "+-++--",
        #[cfg(feature = "wide")] "+-+-++",
        #[cfg(feature = "wide")] "+-+--+",
        #[cfg(feature = "wide")] "+-+---",
        #[cfg(feature = "wide")] "+--+++",
        #[cfg(feature = "wide")] "+--++-",
        #[cfg(feature = "wide")] "+--+-+",
        #[cfg(feature = "wide")] "+--+--",
        #[cfg(feature = "wide")] "+---++",
        #[cfg(feature = "wide")] "+---+-",
        #[cfg(feature = "wide")] "+----+",
        #[cfg(feature = "wide")] "-++++-",
        #[cfg(feature = "wide")] "-+++-+",
        #[cfg(feature = "wide")] "-+++--",
        #[cfg(feature = "wide")] "-++-++",
        #[cfg(feature = "wide")] "-++-+-",
        #[cfg(feature = "wide")] "-++--+",
        #[cfg(feature = "wide")] "-++---",
        #[cfg(feature = "wide")] "-+-+++",
        #[cfg(feature = "wide")] "-+-++-",
        #[cfg(feature = "wide")] "-+-+--",
        #[cfg(feature = "wide")] "-+--++",
        #[cfg(feature = "wide")] "-+---+",
        #[cfg(feature = "wide")] "-+----",
        #[cfg(feature = "wide")] "--++++",
        #[cfg(feature = "wide")] "--+++-",
        #[cfg(feature = "wide")] "--++-+",
        #[cfg(feature = "wide")] "--++--",
        #[cfg(feature = "wide")] "--+-+-",
        #[cfg(feature = "wide")] "--+--+",
        #[cfg(feature = "wide")] "--+---",
        #[cfg(feature = "wide")] "---+++",
        #[cfg(feature = "wide")] "---++-",
        #[cfg(feature = "wide")] "---+-+",
        #[cfg(feature = "wide")] "---+--",
        #[cfg(feature = "wide")] "----++",
        #[cfg(feature = "wide")] "----+-",
        #[cfg(feature = "wide")] "-----+",
        #[cfg(feature = "wide")] "+++-++-",
        #[cfg(feature = "wide")] "++-++-+",
        #[cfg(feature = "wide")] "++--+--",
        #[cfg(feature = "wide")] "+-++-++",
        #[cfg(feature = "wide")] "+-+--+-",
        #[cfg(feature = "wide")] "+--+--+",
        #[cfg(feature = "wide")] "-++-+++",
        #[cfg(feature = "wide")] "-+-+++-",
        #[cfg(feature = "wide")] "-+--+-+",
        #[cfg(feature = "wide")] "--+++--",
        #[cfg(feature = "wide")] "--+--++",
        #[cfg(feature = "wide")] "---+-+-",
        #[cfg(feature = "wide")] "------+",
        #[cfg(feature = "wide")] "+++---+-",
        #[cfg(feature = "wide")] "++---+-+",
        #[cfg(feature = "wide")] "+-+-+---",
        #[cfg(feature = "wide")] "+---+-++",
        #[cfg(feature = "wide")] "-++-+++-",
        #[cfg(feature = "wide")] "-+-+---+",
        #[cfg(feature = "wide")] "--++-+--",
        #[cfg(feature = "wide")] "---+-+++",
        #[cfg(feature = "wide")] "-++-+-+-+--",
    ]
}
#[macro_export]
macro_rules! dispatch_nondeg {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+" => $f::<$crate::algs::Ap $(, $g)*>($($arg),*),
            "-" => $f::<$crate::algs::Am $(, $g)*>($($arg),*),
            "++" => $f::<$crate::algs::App $(, $g)*>($($arg),*),
            "+-" => $f::<$crate::algs::Apm $(, $g)*>($($arg),*),
            "-+" => $f::<$crate::algs::Amp $(, $g)*>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*>($($arg),*),
            "+++" => $f::<$crate::algs::Appp $(, $g)*>($($arg),*),
            "++-" => $f::<$crate::algs::Appm $(, $g)*>($($arg),*),
            "+-+" => $f::<$crate::algs::Apmp $(, $g)*>($($arg),*),
            "+--" => $f::<$crate::algs::Apmm $(, $g)*>($($arg),*),
            "-++" => $f::<$crate::algs::Ampp $(, $g)*>($($arg),*),
            "-+-" => $f::<$crate::algs::Ampm $(, $g)*>($($arg),*),
            "--+" => $f::<$crate::algs::Ammp $(, $g)*>($($arg),*),
            "---" => $f::<$crate::algs::Ammm $(, $g)*>($($arg),*),
            "++++" => $f::<$crate::algs::Apppp $(, $g)*>($($arg),*),
            "+++-" => $f::<$crate::algs::Apppm $(, $g)*>($($arg),*),
            "++-+" => $f::<$crate::algs::Appmp $(, $g)*>($($arg),*),
            "++--" => $f::<$crate::algs::Appmm $(, $g)*>($($arg),*),
            "+-++" => $f::<$crate::algs::Apmpp $(, $g)*>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*>($($arg),*),
            "+--+" => $f::<$crate::algs::Apmmp $(, $g)*>($($arg),*),
            "+---" => $f::<$crate::algs::Apmmm $(, $g)*>($($arg),*),
            "-+++" => $f::<$crate::algs::Amppp $(, $g)*>($($arg),*),
            "-++-" => $f::<$crate::algs::Amppm $(, $g)*>($($arg),*),
            "-+-+" => $f::<$crate::algs::Ampmp $(, $g)*>($($arg),*),
            "-+--" => $f::<$crate::algs::Ampmm $(, $g)*>($($arg),*),
            "--++" => $f::<$crate::algs::Ammpp $(, $g)*>($($arg),*),
            "--+-" => $f::<$crate::algs::Ammpm $(, $g)*>($($arg),*),
            "---+" => $f::<$crate::algs::Ammmp $(, $g)*>($($arg),*),
            "----" => $f::<$crate::algs::Ammmm $(, $g)*>($($arg),*),
            "+++++" => $f::<$crate::algs::Appppp $(, $g)*>($($arg),*),
            "-----" => $f::<$crate::algs::Ammmmm $(, $g)*>($($arg),*),
            "+-+-+" => $f::<$crate::algs::Apmpmp $(, $g)*>($($arg),*),
            "-+-+-" => $f::<$crate::algs::Ampmpm $(, $g)*>($($arg),*),
            "++--+" => $f::<$crate::algs::Appmmp $(, $g)*>($($arg),*),
            "+++--" => $f::<$crate::algs::Apppmm $(, $g)*>($($arg),*),
            "++++-" => $f::<$crate::algs::Appppm $(, $g)*>($($arg),*),
            "-++++" => $f::<$crate::algs::Ampppp $(, $g)*>($($arg),*),
            "+----" => $f::<$crate::algs::Apmmmm $(, $g)*>($($arg),*),
            "++++++" => $f::<$crate::algs::Apppppp $(, $g)*>($($arg),*),
            "------" => $f::<$crate::algs::Ammmmmm $(, $g)*>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*>($($arg),*),
            "-+-+-+" => $f::<$crate::algs::Ampmpmp $(, $g)*>($($arg),*),
            "+++---" => $f::<$crate::algs::Apppmmm $(, $g)*>($($arg),*),
            "--+-++" => $f::<$crate::algs::Ammpmpp $(, $g)*>($($arg),*),
            "+++++-" => $f::<$crate::algs::Apppppm $(, $g)*>($($arg),*),
            "-+++++" => $f::<$crate::algs::Amppppp $(, $g)*>($($arg),*),
            "+-----" => $f::<$crate::algs::Apmmmmm $(, $g)*>($($arg),*),
            "++++--" => $f::<$crate::algs::Appppmm $(, $g)*>($($arg),*),
            "-+--+-" => $f::<$crate::algs::Ampmmpm $(, $g)*>($($arg),*),
            "+++++++" => $f::<$crate::algs::Appppppp $(, $g)*>($($arg),*),
            "-------" => $f::<$crate::algs::Ammmmmmm $(, $g)*>($($arg),*),
            "+-+-+-+" => $f::<$crate::algs::Apmpmpmp $(, $g)*>($($arg),*),
            "++++++++" => $f::<$crate::algs::Apppppppp $(, $g)*>($($arg),*),
            "--------" => $f::<$crate::algs::Ammmmmmmm $(, $g)*>($($arg),*),
            "+-+-+-+-" => $f::<$crate::algs::Apmpmpmpm $(, $g)*>($($arg),*),
            "-+-+++--" => $f::<$crate::algs::Ampmpppmm $(, $g)*>($($arg),*),
            "++++++-" => $f::<$crate::algs::Appppppm $(, $g)*>($($arg),*),
            "+------" => $f::<$crate::algs::Apmmmmmm $(, $g)*>($($arg),*),
            "+++++++-" => $f::<$crate::algs::Apppppppm $(, $g)*>($($arg),*),
            "-+++++++" => $f::<$crate::algs::Amppppppp $(, $g)*>($($arg),*),
            "+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmp $(, $g)*>($($arg),*),
            "+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpm $(, $g)*>($($arg),*),
            "++++++++++" => $f::<$crate::algs::Apppppppppp $(, $g)*>($($arg),*),
            "+-+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmpmp $(, $g)*>($($arg),*),
            "-+-+-+-+-+-+" => $f::<$crate::algs::Ampmpmpmpmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-+" => $f::<$crate::algs::Apppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++" => $f::<$crate::algs::Appmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+-" => $f::<$crate::algs::Appmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---" => $f::<$crate::algs::Appmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+++" => $f::<$crate::algs::Apmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-" => $f::<$crate::algs::Apmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--" => $f::<$crate::algs::Apmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--++" => $f::<$crate::algs::Apmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+-" => $f::<$crate::algs::Apmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+" => $f::<$crate::algs::Apmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++-" => $f::<$crate::algs::Ampppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+" => $f::<$crate::algs::Amppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++--" => $f::<$crate::algs::Amppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-++" => $f::<$crate::algs::Ampmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--+" => $f::<$crate::algs::Ampmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+---" => $f::<$crate::algs::Ampmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++" => $f::<$crate::algs::Ammppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++-" => $f::<$crate::algs::Ammppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-+" => $f::<$crate::algs::Ammpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+--" => $f::<$crate::algs::Ammpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---++" => $f::<$crate::algs::Ammmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-" => $f::<$crate::algs::Ammmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----+" => $f::<$crate::algs::Ammmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++++-+" => $f::<$crate::algs::Appppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-++" => $f::<$crate::algs::Apppmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-+-" => $f::<$crate::algs::Apppmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++--+" => $f::<$crate::algs::Apppmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+++" => $f::<$crate::algs::Appmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++-" => $f::<$crate::algs::Appmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+-+" => $f::<$crate::algs::Appmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-+--" => $f::<$crate::algs::Appmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--++" => $f::<$crate::algs::Appmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--+-" => $f::<$crate::algs::Appmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---+" => $f::<$crate::algs::Appmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++----" => $f::<$crate::algs::Appmmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++++" => $f::<$crate::algs::Apmpppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+++-" => $f::<$crate::algs::Apmpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-+" => $f::<$crate::algs::Apmppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++--" => $f::<$crate::algs::Apmppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+-++" => $f::<$crate::algs::Apmpmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+" => $f::<$crate::algs::Apmpmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+---" => $f::<$crate::algs::Apmpmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+++" => $f::<$crate::algs::Apmmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--++-" => $f::<$crate::algs::Apmmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+-+" => $f::<$crate::algs::Apmmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+--" => $f::<$crate::algs::Apmmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---++" => $f::<$crate::algs::Apmmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+-" => $f::<$crate::algs::Apmmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+----+" => $f::<$crate::algs::Apmmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++++-" => $f::<$crate::algs::Amppppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++-+" => $f::<$crate::algs::Ampppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+++--" => $f::<$crate::algs::Ampppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-++" => $f::<$crate::algs::Amppmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-" => $f::<$crate::algs::Amppmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++--+" => $f::<$crate::algs::Amppmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++---" => $f::<$crate::algs::Amppmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++" => $f::<$crate::algs::Ampmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-++-" => $f::<$crate::algs::Ampmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+--" => $f::<$crate::algs::Ampmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--++" => $f::<$crate::algs::Ampmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+---+" => $f::<$crate::algs::Ampmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+----" => $f::<$crate::algs::Ampmmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++++" => $f::<$crate::algs::Ammpppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++-" => $f::<$crate::algs::Ammpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++-+" => $f::<$crate::algs::Ammppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++--" => $f::<$crate::algs::Ammppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+-+-" => $f::<$crate::algs::Ammpmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+--+" => $f::<$crate::algs::Ammpmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+---" => $f::<$crate::algs::Ammpmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+++" => $f::<$crate::algs::Ammmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---++-" => $f::<$crate::algs::Ammmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-+" => $f::<$crate::algs::Ammmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+--" => $f::<$crate::algs::Ammmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----++" => $f::<$crate::algs::Ammmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "----+-" => $f::<$crate::algs::Ammmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-----+" => $f::<$crate::algs::Ammmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++-++-" => $f::<$crate::algs::Apppmppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++-++-+" => $f::<$crate::algs::Appmppmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++--+--" => $f::<$crate::algs::Appmmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-++-++" => $f::<$crate::algs::Apmppmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+-" => $f::<$crate::algs::Apmpmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+--+--+" => $f::<$crate::algs::Apmmpmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++" => $f::<$crate::algs::Amppmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++-" => $f::<$crate::algs::Ampmpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+--+-+" => $f::<$crate::algs::Ampmmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+++--" => $f::<$crate::algs::Ammpppmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--+--++" => $f::<$crate::algs::Ammpmmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-+-" => $f::<$crate::algs::Ammmpmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "------+" => $f::<$crate::algs::Ammmmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+++---+-" => $f::<$crate::algs::Apppmmmpm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "++---+-+" => $f::<$crate::algs::Appmmmpmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+-+-+---" => $f::<$crate::algs::Apmpmpmmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "+---+-++" => $f::<$crate::algs::Apmmmpmpp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++-" => $f::<$crate::algs::Amppmpppm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-+-+---+" => $f::<$crate::algs::Ampmpmmmp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "--++-+--" => $f::<$crate::algs::Ammppmpmm $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "---+-+++" => $f::<$crate::algs::Ammmpmppp $(, $g)*>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-+-+--" => $f::<$crate::algs::Amppmpmpmpmm $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_nondeg_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+" => $f::<$crate::algs::Ap $(, $g)*, 1>($($arg),*),
            "-" => $f::<$crate::algs::Am $(, $g)*, 1>($($arg),*),
            "++" => $f::<$crate::algs::App $(, $g)*, 2>($($arg),*),
            "+-" => $f::<$crate::algs::Apm $(, $g)*, 2>($($arg),*),
            "-+" => $f::<$crate::algs::Amp $(, $g)*, 2>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*, 2>($($arg),*),
            "+++" => $f::<$crate::algs::Appp $(, $g)*, 3>($($arg),*),
            "++-" => $f::<$crate::algs::Appm $(, $g)*, 3>($($arg),*),
            "+-+" => $f::<$crate::algs::Apmp $(, $g)*, 3>($($arg),*),
            "+--" => $f::<$crate::algs::Apmm $(, $g)*, 3>($($arg),*),
            "-++" => $f::<$crate::algs::Ampp $(, $g)*, 3>($($arg),*),
            "-+-" => $f::<$crate::algs::Ampm $(, $g)*, 3>($($arg),*),
            "--+" => $f::<$crate::algs::Ammp $(, $g)*, 3>($($arg),*),
            "---" => $f::<$crate::algs::Ammm $(, $g)*, 3>($($arg),*),
            "++++" => $f::<$crate::algs::Apppp $(, $g)*, 4>($($arg),*),
            "+++-" => $f::<$crate::algs::Apppm $(, $g)*, 4>($($arg),*),
            "++-+" => $f::<$crate::algs::Appmp $(, $g)*, 4>($($arg),*),
            "++--" => $f::<$crate::algs::Appmm $(, $g)*, 4>($($arg),*),
            "+-++" => $f::<$crate::algs::Apmpp $(, $g)*, 4>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*, 4>($($arg),*),
            "+--+" => $f::<$crate::algs::Apmmp $(, $g)*, 4>($($arg),*),
            "+---" => $f::<$crate::algs::Apmmm $(, $g)*, 4>($($arg),*),
            "-+++" => $f::<$crate::algs::Amppp $(, $g)*, 4>($($arg),*),
            "-++-" => $f::<$crate::algs::Amppm $(, $g)*, 4>($($arg),*),
            "-+-+" => $f::<$crate::algs::Ampmp $(, $g)*, 4>($($arg),*),
            "-+--" => $f::<$crate::algs::Ampmm $(, $g)*, 4>($($arg),*),
            "--++" => $f::<$crate::algs::Ammpp $(, $g)*, 4>($($arg),*),
            "--+-" => $f::<$crate::algs::Ammpm $(, $g)*, 4>($($arg),*),
            "---+" => $f::<$crate::algs::Ammmp $(, $g)*, 4>($($arg),*),
            "----" => $f::<$crate::algs::Ammmm $(, $g)*, 4>($($arg),*),
            "+++++" => $f::<$crate::algs::Appppp $(, $g)*, 5>($($arg),*),
            "-----" => $f::<$crate::algs::Ammmmm $(, $g)*, 5>($($arg),*),
            "+-+-+" => $f::<$crate::algs::Apmpmp $(, $g)*, 5>($($arg),*),
            "-+-+-" => $f::<$crate::algs::Ampmpm $(, $g)*, 5>($($arg),*),
            "++--+" => $f::<$crate::algs::Appmmp $(, $g)*, 5>($($arg),*),
            "+++--" => $f::<$crate::algs::Apppmm $(, $g)*, 5>($($arg),*),
            "++++-" => $f::<$crate::algs::Appppm $(, $g)*, 5>($($arg),*),
            "-++++" => $f::<$crate::algs::Ampppp $(, $g)*, 5>($($arg),*),
            "+----" => $f::<$crate::algs::Apmmmm $(, $g)*, 5>($($arg),*),
            "++++++" => $f::<$crate::algs::Apppppp $(, $g)*, 6>($($arg),*),
            "------" => $f::<$crate::algs::Ammmmmm $(, $g)*, 6>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*, 6>($($arg),*),
            "-+-+-+" => $f::<$crate::algs::Ampmpmp $(, $g)*, 6>($($arg),*),
            "+++---" => $f::<$crate::algs::Apppmmm $(, $g)*, 6>($($arg),*),
            "--+-++" => $f::<$crate::algs::Ammpmpp $(, $g)*, 6>($($arg),*),
            "+++++-" => $f::<$crate::algs::Apppppm $(, $g)*, 6>($($arg),*),
            "-+++++" => $f::<$crate::algs::Amppppp $(, $g)*, 6>($($arg),*),
            "+-----" => $f::<$crate::algs::Apmmmmm $(, $g)*, 6>($($arg),*),
            "++++--" => $f::<$crate::algs::Appppmm $(, $g)*, 6>($($arg),*),
            "-+--+-" => $f::<$crate::algs::Ampmmpm $(, $g)*, 6>($($arg),*),
            "+++++++" => $f::<$crate::algs::Appppppp $(, $g)*, 7>($($arg),*),
            "-------" => $f::<$crate::algs::Ammmmmmm $(, $g)*, 7>($($arg),*),
            "+-+-+-+" => $f::<$crate::algs::Apmpmpmp $(, $g)*, 7>($($arg),*),
            "++++++++" => $f::<$crate::algs::Apppppppp $(, $g)*, 8>($($arg),*),
            "--------" => $f::<$crate::algs::Ammmmmmmm $(, $g)*, 8>($($arg),*),
            "+-+-+-+-" => $f::<$crate::algs::Apmpmpmpm $(, $g)*, 8>($($arg),*),
            "-+-+++--" => $f::<$crate::algs::Ampmpppmm $(, $g)*, 8>($($arg),*),
            "++++++-" => $f::<$crate::algs::Appppppm $(, $g)*, 7>($($arg),*),
            "+------" => $f::<$crate::algs::Apmmmmmm $(, $g)*, 7>($($arg),*),
            "+++++++-" => $f::<$crate::algs::Apppppppm $(, $g)*, 8>($($arg),*),
            "-+++++++" => $f::<$crate::algs::Amppppppp $(, $g)*, 8>($($arg),*),
            "+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmp $(, $g)*, 9>($($arg),*),
            "+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpm $(, $g)*, 10>($($arg),*),
            "++++++++++" => $f::<$crate::algs::Apppppppppp $(, $g)*, 10>($($arg),*),
            "+-+-+-+-+-+" => $f::<$crate::algs::Apmpmpmpmpmp $(, $g)*, 11>($($arg),*),
            "-+-+-+-+-+-+" => $f::<$crate::algs::Ampmpmpmpmpmp $(, $g)*, 12>($($arg),*),
            #[cfg(feature = "wide")] "+++-+" => $f::<$crate::algs::Apppmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++-++" => $f::<$crate::algs::Appmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++-+-" => $f::<$crate::algs::Appmpm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++---" => $f::<$crate::algs::Appmmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-+++" => $f::<$crate::algs::Apmppp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-++-" => $f::<$crate::algs::Apmppm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+-+--" => $f::<$crate::algs::Apmpmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+--++" => $f::<$crate::algs::Apmmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+--+-" => $f::<$crate::algs::Apmmpm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "+---+" => $f::<$crate::algs::Apmmmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+++-" => $f::<$crate::algs::Ampppm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-++-+" => $f::<$crate::algs::Amppmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-++--" => $f::<$crate::algs::Amppmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+-++" => $f::<$crate::algs::Ampmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+--+" => $f::<$crate::algs::Ampmmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "-+---" => $f::<$crate::algs::Ampmmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+++" => $f::<$crate::algs::Ammppp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--++-" => $f::<$crate::algs::Ammppm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+-+" => $f::<$crate::algs::Ammpmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "--+--" => $f::<$crate::algs::Ammpmm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "---++" => $f::<$crate::algs::Ammmpp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "---+-" => $f::<$crate::algs::Ammmpm $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "----+" => $f::<$crate::algs::Ammmmp $(, $g)*, 5>($($arg),*),
            #[cfg(feature = "wide")] "++++-+" => $f::<$crate::algs::Appppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-++" => $f::<$crate::algs::Apppmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-+-" => $f::<$crate::algs::Apppmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++--+" => $f::<$crate::algs::Apppmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+++" => $f::<$crate::algs::Appmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-++-" => $f::<$crate::algs::Appmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+-+" => $f::<$crate::algs::Appmpmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++-+--" => $f::<$crate::algs::Appmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++--++" => $f::<$crate::algs::Appmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++--+-" => $f::<$crate::algs::Appmmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++---+" => $f::<$crate::algs::Appmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "++----" => $f::<$crate::algs::Appmmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++++" => $f::<$crate::algs::Apmpppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+++-" => $f::<$crate::algs::Apmpppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++-+" => $f::<$crate::algs::Apmppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-++--" => $f::<$crate::algs::Apmppmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+-++" => $f::<$crate::algs::Apmpmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+" => $f::<$crate::algs::Apmpmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+-+---" => $f::<$crate::algs::Apmpmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+++" => $f::<$crate::algs::Apmmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--++-" => $f::<$crate::algs::Apmmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+-+" => $f::<$crate::algs::Apmmpmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+--+--" => $f::<$crate::algs::Apmmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+---++" => $f::<$crate::algs::Apmmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+---+-" => $f::<$crate::algs::Apmmmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+----+" => $f::<$crate::algs::Apmmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++++-" => $f::<$crate::algs::Amppppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+++-+" => $f::<$crate::algs::Ampppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+++--" => $f::<$crate::algs::Ampppmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++-++" => $f::<$crate::algs::Amppmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-" => $f::<$crate::algs::Amppmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++--+" => $f::<$crate::algs::Amppmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-++---" => $f::<$crate::algs::Amppmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++" => $f::<$crate::algs::Ampmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-++-" => $f::<$crate::algs::Ampmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+-+--" => $f::<$crate::algs::Ampmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+--++" => $f::<$crate::algs::Ampmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+---+" => $f::<$crate::algs::Ampmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-+----" => $f::<$crate::algs::Ampmmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--++++" => $f::<$crate::algs::Ammpppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+++-" => $f::<$crate::algs::Ammpppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--++-+" => $f::<$crate::algs::Ammppmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--++--" => $f::<$crate::algs::Ammppmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+-+-" => $f::<$crate::algs::Ammpmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+--+" => $f::<$crate::algs::Ammpmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "--+---" => $f::<$crate::algs::Ammpmmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+++" => $f::<$crate::algs::Ammmppp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---++-" => $f::<$crate::algs::Ammmppm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+-+" => $f::<$crate::algs::Ammmpmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "---+--" => $f::<$crate::algs::Ammmpmm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "----++" => $f::<$crate::algs::Ammmmpp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "----+-" => $f::<$crate::algs::Ammmmpm $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "-----+" => $f::<$crate::algs::Ammmmmp $(, $g)*, 6>($($arg),*),
            #[cfg(feature = "wide")] "+++-++-" => $f::<$crate::algs::Apppmppm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "++-++-+" => $f::<$crate::algs::Appmppmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "++--+--" => $f::<$crate::algs::Appmmpmm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+-++-++" => $f::<$crate::algs::Apmppmpp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+-+--+-" => $f::<$crate::algs::Apmpmmpm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+--+--+" => $f::<$crate::algs::Apmmpmmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++" => $f::<$crate::algs::Amppmppp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+-+++-" => $f::<$crate::algs::Ampmpppm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "-+--+-+" => $f::<$crate::algs::Ampmmpmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "--+++--" => $f::<$crate::algs::Ammpppmm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "--+--++" => $f::<$crate::algs::Ammpmmpp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "---+-+-" => $f::<$crate::algs::Ammmpmpm $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "------+" => $f::<$crate::algs::Ammmmmmp $(, $g)*, 7>($($arg),*),
            #[cfg(feature = "wide")] "+++---+-" => $f::<$crate::algs::Apppmmmpm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "++---+-+" => $f::<$crate::algs::Appmmmpmp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+-+-+---" => $f::<$crate::algs::Apmpmpmmm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "+---+-++" => $f::<$crate::algs::Apmmmpmpp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-++-+++-" => $f::<$crate::algs::Amppmpppm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-+-+---+" => $f::<$crate::algs::Ampmpmmmp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "--++-+--" => $f::<$crate::algs::Ammppmpmm $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "---+-+++" => $f::<$crate::algs::Ammmpmppp $(, $g)*, 8>($($arg),*),
            #[cfg(feature = "wide")] "-++-+-+-+--" => $f::<$crate::algs::Amppmpmpmpmm $(, $g)*, 11>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// Signatures [+,-,+,-,...]
pub fn sigs_split() -> Vec<&'static str> {
    vec![
        "+-",
        "+-+-",
        "+-+-+-",
        "+-+-+-+-",
        "+-+-+-+-+-",
    ]
}
#[macro_export]
macro_rules! dispatch_split {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+-" => $f::<$crate::algs::Apm $(, $g)*>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*>($($arg),*),
            "+-+-+-+-" => $f::<$crate::algs::Apmpmpmpm $(, $g)*>($($arg),*),
            "+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpm $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_split_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+-" => $f::<$crate::algs::Apm $(, $g)*, 2>($($arg),*),
            "+-+-" => $f::<$crate::algs::Apmpm $(, $g)*, 4>($($arg),*),
            "+-+-+-" => $f::<$crate::algs::Apmpmpm $(, $g)*, 6>($($arg),*),
            "+-+-+-+-" => $f::<$crate::algs::Apmpmpmpm $(, $g)*, 8>($($arg),*),
            "+-+-+-+-+-" => $f::<$crate::algs::Apmpmpmpmpm $(, $g)*, 10>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// Projective signatures [+,...,+,0]
pub fn sigs_pga() -> Vec<&'static str> {
    vec![
        "+0",
        "++0",
        "+++0",
        "++++0",
        "+++++0",
        "++++++0",
        "+++++++0",
    ]
}
#[macro_export]
macro_rules! dispatch_pga {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+0" => $f::<$crate::algs::Apn $(, $g)*>($($arg),*),
            "++0" => $f::<$crate::algs::Appn $(, $g)*>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*>($($arg),*),
            "++++0" => $f::<$crate::algs::Appppn $(, $g)*>($($arg),*),
            "+++++0" => $f::<$crate::algs::Apppppn $(, $g)*>($($arg),*),
            "++++++0" => $f::<$crate::algs::Appppppn $(, $g)*>($($arg),*),
            "+++++++0" => $f::<$crate::algs::Apppppppn $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_pga_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+0" => $f::<$crate::algs::Apn $(, $g)*, 2>($($arg),*),
            "++0" => $f::<$crate::algs::Appn $(, $g)*, 3>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*, 4>($($arg),*),
            "++++0" => $f::<$crate::algs::Appppn $(, $g)*, 5>($($arg),*),
            "+++++0" => $f::<$crate::algs::Apppppn $(, $g)*, 6>($($arg),*),
            "++++++0" => $f::<$crate::algs::Appppppn $(, $g)*, 7>($($arg),*),
            "+++++++0" => $f::<$crate::algs::Apppppppn $(, $g)*, 8>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_pga_spc {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "+0" => $f::<$crate::algs::Apn $(, $g)*, 1>($($arg),*),
            "++0" => $f::<$crate::algs::Appn $(, $g)*, 2>($($arg),*),
            "+++0" => $f::<$crate::algs::Apppn $(, $g)*, 3>($($arg),*),
            "++++0" => $f::<$crate::algs::Appppn $(, $g)*, 4>($($arg),*),
            "+++++0" => $f::<$crate::algs::Apppppn $(, $g)*, 5>($($arg),*),
            "++++++0" => $f::<$crate::algs::Appppppn $(, $g)*, 6>($($arg),*),
            "+++++++0" => $f::<$crate::algs::Apppppppn $(, $g)*, 7>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}

/// Complex and quaternionic signatures
pub fn sigs_div() -> Vec<&'static str> {
    vec![
        "-",
        "--",
    ]
}
#[macro_export]
macro_rules! dispatch_div {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "-" => $f::<$crate::algs::Am $(, $g)*>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
#[macro_export]
macro_rules! dispatch_div_dim {
    ($sig:expr, $f:ident [$($g:ty),*] ($($arg:expr),*)) => {
        match $sig {
            "-" => $f::<$crate::algs::Am $(, $g)*, 1>($($arg),*),
            "--" => $f::<$crate::algs::Amm $(, $g)*, 2>($($arg),*),
            other => panic!("no such algebra: {}", other),
        }
    };
}
