// 250 distinguishable function pointers
fn lit<const N: u8>(_: u8) -> u8 { N }
pub static FNS: [fn(u8) -> u8; 250] = [
    lit::<0>,
    lit::<1>,
    lit::<2>,
    lit::<3>,
    lit::<4>,
    lit::<5>,
    lit::<6>,
    lit::<7>,
    lit::<8>,
    lit::<9>,
    lit::<10>,
    lit::<11>,
    lit::<12>,
    lit::<13>,
    lit::<14>,
    lit::<15>,
    lit::<16>,
    lit::<17>,
    lit::<18>,
    lit::<19>,
    lit::<20>,
    lit::<21>,
    lit::<22>,
    lit::<23>,
    lit::<24>,
    lit::<25>,
    lit::<26>,
    lit::<27>,
    lit::<28>,
    lit::<29>,
    lit::<30>,
    lit::<31>,
    lit::<32>,
    lit::<33>,
    lit::<34>,
    lit::<35>,
    lit::<36>,
    lit::<37>,
    lit::<38>,
    lit::<39>,
    lit::<40>,
    lit::<41>,
    lit::<42>,
    lit::<43>,
    lit::<44>,
    lit::<45>,
    lit::<46>,
    lit::<47>,
    lit::<48>,
    lit::<49>,
    lit::<50>,
    lit::<51>,
    lit::<52>,
    lit::<53>,
    lit::<54>,
    lit::<55>,
    lit::<56>,
    lit::<57>,
    lit::<58>,
    lit::<59>,
    lit::<60>,
    lit::<61>,
    lit::<62>,
    lit::<63>,
    lit::<64>,
    lit::<65>,
    lit::<66>,
    lit::<67>,
    lit::<68>,
    lit::<69>,
    lit::<70>,
    lit::<71>,
    lit::<72>,
    lit::<73>,
    lit::<74>,
    lit::<75>,
    lit::<76>,
    lit::<77>,
    lit::<78>,
    lit::<79>,
    lit::<80>,
    lit::<81>,
    lit::<82>,
    lit::<83>,
    lit::<84>,
    lit::<85>,
    lit::<86>,
    lit::<87>,
    lit::<88>,
    lit::<89>,
    lit::<90>,
    lit::<91>,
    lit::<92>,
    lit::<93>,
    lit::<94>,
    lit::<95>,
    lit::<96>,
    lit::<97>,
    lit::<98>,
    lit::<99>,
    lit::<100>,
    lit::<101>,
    lit::<102>,
    lit::<103>,
    lit::<104>,
    lit::<105>,
    lit::<106>,
    lit::<107>,
    lit::<108>,
    lit::<109>,
    lit::<110>,
    lit::<111>,
    lit::<112>,
    lit::<113>,
    lit::<114>,
    lit::<115>,
    lit::<116>,
    lit::<117>,
    lit::<118>,
    lit::<119>,
    lit::<120>,
    lit::<121>,
    lit::<122>,
    lit::<123>,
    lit::<124>,
    lit::<125>,
    lit::<126>,
    lit::<127>,
    lit::<128>,
    lit::<129>,
    lit::<130>,
    lit::<131>,
    lit::<132>,
    lit::<133>,
    lit::<134>,
    lit::<135>,
    lit::<136>,
    lit::<137>,
    lit::<138>,
    lit::<139>,
    lit::<140>,
    lit::<141>,
    lit::<142>,
    lit::<143>,
    lit::<144>,
    lit::<145>,
    lit::<146>,
    lit::<147>,
    lit::<148>,
    lit::<149>,
    lit::<150>,
    lit::<151>,
    lit::<152>,
    lit::<153>,
    lit::<154>,
    lit::<155>,
    lit::<156>,
    lit::<157>,
    lit::<158>,
    lit::<159>,
    lit::<160>,
    lit::<161>,
    lit::<162>,
    lit::<163>,
    lit::<164>,
    lit::<165>,
    lit::<166>,
    lit::<167>,
    lit::<168>,
    lit::<169>,
    lit::<170>,
    lit::<171>,
    lit::<172>,
    lit::<173>,
    lit::<174>,
    lit::<175>,
    lit::<176>,
    lit::<177>,
    lit::<178>,
    lit::<179>,
    lit::<180>,
    lit::<181>,
    lit::<182>,
    lit::<183>,
    lit::<184>,
    lit::<185>,
    lit::<186>,
    lit::<187>,
    lit::<188>,
    lit::<189>,
    lit::<190>,
    lit::<191>,
    lit::<192>,
    lit::<193>,
    lit::<194>,
    lit::<195>,
    lit::<196>,
    lit::<197>,
    lit::<198>,
    lit::<199>,
    lit::<200>,
    lit::<201>,
    lit::<202>,
    lit::<203>,
    lit::<204>,
    lit::<205>,
    lit::<206>,
    lit::<207>,
    lit::<208>,
    lit::<209>,
    lit::<210>,
    lit::<211>,
    lit::<212>,
    lit::<213>,
    lit::<214>,
    lit::<215>,
    lit::<216>,
    lit::<217>,
    lit::<218>,
    lit::<219>,
    lit::<220>,
    lit::<221>,
    lit::<222>,
    lit::<223>,
    lit::<224>,
    lit::<225>,
    lit::<226>,
    lit::<227>,
    lit::<228>,
    lit::<229>,
    lit::<230>,
    lit::<231>,
    lit::<232>,
    lit::<233>,
    lit::<234>,
    lit::<235>,
    lit::<236>,
    lit::<237>,
    lit::<238>,
    lit::<239>,
    lit::<240>,
    lit::<241>,
    lit::<242>,
    lit::<243>,
    lit::<244>,
    lit::<245>,
    lit::<246>,
    lit::<247>,
    lit::<248>,
    lit::<249>,
];
