//! Codes that no xterm colour has.
#![allow(dead_code, unused)]
// bad: xterm_from_code!(256)
#[cfg(bad)]
const B0: () = { let _ = colorz::xterm_from_code!(256); };
// bad: xterm_from_code!(257)
#[cfg(bad)]
const B1: () = { let _ = colorz::xterm_from_code!(257); };
// bad: xterm_from_code!(258)
#[cfg(bad)]
const B2: () = { let _ = colorz::xterm_from_code!(258); };
// bad: xterm_from_code!(259)
#[cfg(bad)]
const B3: () = { let _ = colorz::xterm_from_code!(259); };
// bad: xterm_from_code!(260)
#[cfg(bad)]
const B4: () = { let _ = colorz::xterm_from_code!(260); };
// bad: xterm_from_code!(299)
#[cfg(bad)]
const B5: () = { let _ = colorz::xterm_from_code!(299); };
// bad: xterm_from_code!(300)
#[cfg(bad)]
const B6: () = { let _ = colorz::xterm_from_code!(300); };
// bad: xterm_from_code!(511)
#[cfg(bad)]
const B7: () = { let _ = colorz::xterm_from_code!(511); };
// bad: xterm_from_code!(512)
#[cfg(bad)]
const B8: () = { let _ = colorz::xterm_from_code!(512); };
// bad: xterm_from_code!(768)
#[cfg(bad)]
const B9: () = { let _ = colorz::xterm_from_code!(768); };
// bad: xterm_from_code!(999)
#[cfg(bad)]
const B10: () = { let _ = colorz::xterm_from_code!(999); };
// bad: xterm_from_code!(1000)
#[cfg(bad)]
const B11: () = { let _ = colorz::xterm_from_code!(1000); };
// bad: xterm_from_code!(65535)
#[cfg(bad)]
const B12: () = { let _ = colorz::xterm_from_code!(65535); };
// bad: xterm_from_code!(65536)
#[cfg(bad)]
const B13: () = { let _ = colorz::xterm_from_code!(65536); };
// bad: xterm_from_code!(4294967295)
#[cfg(bad)]
const B14: () = { let _ = colorz::xterm_from_code!(4294967295); };
// bad: xterm_from_code!(4294967296)
#[cfg(bad)]
const B15: () = { let _ = colorz::xterm_from_code!(4294967296); };
// bad: xterm_from_code!(18446744073709551616)
#[cfg(bad)]
const B16: () = { let _ = colorz::xterm_from_code!(18446744073709551616); };
// bad: xterm_from_code!(256u16)
#[cfg(bad)]
const B17: () = { let _ = colorz::xterm_from_code!(256u16); };
// bad: xterm_from_code!(0x100)
#[cfg(bad)]
const B18: () = { let _ = colorz::xterm_from_code!(0x100); };
// bad: xterm_from_code!(-1)
#[cfg(bad)]
const B19: () = { let _ = colorz::xterm_from_code!(-1); };
// bad: xterm_from_code!(-0)
#[cfg(bad)]
const B20: () = { let _ = colorz::xterm_from_code!(-0); };
// bad: xterm_from_code!("256")
#[cfg(bad)]
const B21: () = { let _ = colorz::xterm_from_code!("256"); };
// bad: xterm_from_code!(true)
#[cfg(bad)]
const B22: () = { let _ = colorz::xterm_from_code!(true); };
// bad: xterm_from_code!(code)
#[cfg(bad)]
const B23: () = { let _ = colorz::xterm_from_code!(code); };
// bad: xterm_from_code!()
#[cfg(bad)]
const B24: () = { let _ = colorz::xterm_from_code!(); };
// bad: xterm_from_code!(255 0)
#[cfg(bad)]
const B25: () = { let _ = colorz::xterm_from_code!(255 0); };
// bad: xterm_from_code!((256))
#[cfg(bad)]
const B26: () = { let _ = colorz::xterm_from_code!((256)); };
// bad: xterm_from_code!([256])
#[cfg(bad)]
const B27: () = { let _ = colorz::xterm_from_code!([256]); };
// bad: xterm_from_code!(..)
#[cfg(bad)]
const B28: () = { let _ = colorz::xterm_from_code!(..); };
// bad: xterm_from_code!(_)
#[cfg(bad)]
const B29: () = { let _ = colorz::xterm_from_code!(_); };
// bad: xterm_from_code!(255 + 1)
#[cfg(bad)]
const B30: () = { let _ = colorz::xterm_from_code!(255 + 1); };
// bad: xterm_from_code!(Black)
#[cfg(bad)]
const B31: () = { let _ = colorz::xterm_from_code!(Black); };
// end
const L0: () = { let _ = colorz::xterm_from_code!(0); };
const L1: () = { let _ = colorz::xterm_from_code!(1); };
const L2: () = { let _ = colorz::xterm_from_code!(2); };
const L3: () = { let _ = colorz::xterm_from_code!(3); };
const L4: () = { let _ = colorz::xterm_from_code!(4); };
const L5: () = { let _ = colorz::xterm_from_code!(5); };
const L6: () = { let _ = colorz::xterm_from_code!(6); };
const L7: () = { let _ = colorz::xterm_from_code!(7); };
const L8: () = { let _ = colorz::xterm_from_code!(8); };
const L9: () = { let _ = colorz::xterm_from_code!(9); };
const L10: () = { let _ = colorz::xterm_from_code!(10); };
const L11: () = { let _ = colorz::xterm_from_code!(11); };
const L12: () = { let _ = colorz::xterm_from_code!(12); };
const L13: () = { let _ = colorz::xterm_from_code!(13); };
const L14: () = { let _ = colorz::xterm_from_code!(14); };
const L15: () = { let _ = colorz::xterm_from_code!(15); };
const L16: () = { let _ = colorz::xterm_from_code!(16); };
const L17: () = { let _ = colorz::xterm_from_code!(17); };
const L18: () = { let _ = colorz::xterm_from_code!(18); };
const L19: () = { let _ = colorz::xterm_from_code!(19); };
const L20: () = { let _ = colorz::xterm_from_code!(20); };
const L21: () = { let _ = colorz::xterm_from_code!(21); };
const L22: () = { let _ = colorz::xterm_from_code!(22); };
const L23: () = { let _ = colorz::xterm_from_code!(23); };
const L24: () = { let _ = colorz::xterm_from_code!(24); };
const L25: () = { let _ = colorz::xterm_from_code!(25); };
const L26: () = { let _ = colorz::xterm_from_code!(26); };
const L27: () = { let _ = colorz::xterm_from_code!(27); };
const L28: () = { let _ = colorz::xterm_from_code!(28); };
const L29: () = { let _ = colorz::xterm_from_code!(29); };
const L30: () = { let _ = colorz::xterm_from_code!(30); };
const L31: () = { let _ = colorz::xterm_from_code!(31); };
const L32: () = { let _ = colorz::xterm_from_code!(32); };
const L33: () = { let _ = colorz::xterm_from_code!(33); };
const L34: () = { let _ = colorz::xterm_from_code!(34); };
const L35: () = { let _ = colorz::xterm_from_code!(35); };
const L36: () = { let _ = colorz::xterm_from_code!(36); };
const L37: () = { let _ = colorz::xterm_from_code!(37); };
const L38: () = { let _ = colorz::xterm_from_code!(38); };
const L39: () = { let _ = colorz::xterm_from_code!(39); };
const L40: () = { let _ = colorz::xterm_from_code!(40); };
const L41: () = { let _ = colorz::xterm_from_code!(41); };
const L42: () = { let _ = colorz::xterm_from_code!(42); };
const L43: () = { let _ = colorz::xterm_from_code!(43); };
const L44: () = { let _ = colorz::xterm_from_code!(44); };
const L45: () = { let _ = colorz::xterm_from_code!(45); };
const L46: () = { let _ = colorz::xterm_from_code!(46); };
const L47: () = { let _ = colorz::xterm_from_code!(47); };
const L48: () = { let _ = colorz::xterm_from_code!(48); };
const L49: () = { let _ = colorz::xterm_from_code!(49); };
const L50: () = { let _ = colorz::xterm_from_code!(50); };
const L51: () = { let _ = colorz::xterm_from_code!(51); };
const L52: () = { let _ = colorz::xterm_from_code!(52); };
const L53: () = { let _ = colorz::xterm_from_code!(53); };
const L54: () = { let _ = colorz::xterm_from_code!(54); };
const L55: () = { let _ = colorz::xterm_from_code!(55); };
const L56: () = { let _ = colorz::xterm_from_code!(56); };
const L57: () = { let _ = colorz::xterm_from_code!(57); };
const L58: () = { let _ = colorz::xterm_from_code!(58); };
const L59: () = { let _ = colorz::xterm_from_code!(59); };
const L60: () = { let _ = colorz::xterm_from_code!(60); };
const L61: () = { let _ = colorz::xterm_from_code!(61); };
const L62: () = { let _ = colorz::xterm_from_code!(62); };
const L63: () = { let _ = colorz::xterm_from_code!(63); };
const L64: () = { let _ = colorz::xterm_from_code!(64); };
const L65: () = { let _ = colorz::xterm_from_code!(65); };
const L66: () = { let _ = colorz::xterm_from_code!(66); };
const L67: () = { let _ = colorz::xterm_from_code!(67); };
const L68: () = { let _ = colorz::xterm_from_code!(68); };
const L69: () = { let _ = colorz::xterm_from_code!(69); };
const L70: () = { let _ = colorz::xterm_from_code!(70); };
const L71: () = { let _ = colorz::xterm_from_code!(71); };
const L72: () = { let _ = colorz::xterm_from_code!(72); };
const L73: () = { let _ = colorz::xterm_from_code!(73); };
const L74: () = { let _ = colorz::xterm_from_code!(74); };
const L75: () = { let _ = colorz::xterm_from_code!(75); };
const L76: () = { let _ = colorz::xterm_from_code!(76); };
const L77: () = { let _ = colorz::xterm_from_code!(77); };
const L78: () = { let _ = colorz::xterm_from_code!(78); };
const L79: () = { let _ = colorz::xterm_from_code!(79); };
const L80: () = { let _ = colorz::xterm_from_code!(80); };
const L81: () = { let _ = colorz::xterm_from_code!(81); };
const L82: () = { let _ = colorz::xterm_from_code!(82); };
const L83: () = { let _ = colorz::xterm_from_code!(83); };
const L84: () = { let _ = colorz::xterm_from_code!(84); };
const L85: () = { let _ = colorz::xterm_from_code!(85); };
const L86: () = { let _ = colorz::xterm_from_code!(86); };
const L87: () = { let _ = colorz::xterm_from_code!(87); };
const L88: () = { let _ = colorz::xterm_from_code!(88); };
const L89: () = { let _ = colorz::xterm_from_code!(89); };
const L90: () = { let _ = colorz::xterm_from_code!(90); };
const L91: () = { let _ = colorz::xterm_from_code!(91); };
const L92: () = { let _ = colorz::xterm_from_code!(92); };
const L93: () = { let _ = colorz::xterm_from_code!(93); };
const L94: () = { let _ = colorz::xterm_from_code!(94); };
const L95: () = { let _ = colorz::xterm_from_code!(95); };
const L96: () = { let _ = colorz::xterm_from_code!(96); };
const L97: () = { let _ = colorz::xterm_from_code!(97); };
const L98: () = { let _ = colorz::xterm_from_code!(98); };
const L99: () = { let _ = colorz::xterm_from_code!(99); };
const L100: () = { let _ = colorz::xterm_from_code!(100); };
const L101: () = { let _ = colorz::xterm_from_code!(101); };
const L102: () = { let _ = colorz::xterm_from_code!(102); };
const L103: () = { let _ = colorz::xterm_from_code!(103); };
const L104: () = { let _ = colorz::xterm_from_code!(104); };
const L105: () = { let _ = colorz::xterm_from_code!(105); };
const L106: () = { let _ = colorz::xterm_from_code!(106); };
const L107: () = { let _ = colorz::xterm_from_code!(107); };
const L108: () = { let _ = colorz::xterm_from_code!(108); };
const L109: () = { let _ = colorz::xterm_from_code!(109); };
const L110: () = { let _ = colorz::xterm_from_code!(110); };
const L111: () = { let _ = colorz::xterm_from_code!(111); };
const L112: () = { let _ = colorz::xterm_from_code!(112); };
const L113: () = { let _ = colorz::xterm_from_code!(113); };
const L114: () = { let _ = colorz::xterm_from_code!(114); };
const L115: () = { let _ = colorz::xterm_from_code!(115); };
const L116: () = { let _ = colorz::xterm_from_code!(116); };
const L117: () = { let _ = colorz::xterm_from_code!(117); };
const L118: () = { let _ = colorz::xterm_from_code!(118); };
const L119: () = { let _ = colorz::xterm_from_code!(119); };
const L120: () = { let _ = colorz::xterm_from_code!(120); };
const L121: () = { let _ = colorz::xterm_from_code!(121); };
const L122: () = { let _ = colorz::xterm_from_code!(122); };
const L123: () = { let _ = colorz::xterm_from_code!(123); };
const L124: () = { let _ = colorz::xterm_from_code!(124); };
const L125: () = { let _ = colorz::xterm_from_code!(125); };
const L126: () = { let _ = colorz::xterm_from_code!(126); };
const L127: () = { let _ = colorz::xterm_from_code!(127); };
const L128: () = { let _ = colorz::xterm_from_code!(128); };
const L129: () = { let _ = colorz::xterm_from_code!(129); };
const L130: () = { let _ = colorz::xterm_from_code!(130); };
const L131: () = { let _ = colorz::xterm_from_code!(131); };
const L132: () = { let _ = colorz::xterm_from_code!(132); };
const L133: () = { let _ = colorz::xterm_from_code!(133); };
const L134: () = { let _ = colorz::xterm_from_code!(134); };
const L135: () = { let _ = colorz::xterm_from_code!(135); };
const L136: () = { let _ = colorz::xterm_from_code!(136); };
const L137: () = { let _ = colorz::xterm_from_code!(137); };
const L138: () = { let _ = colorz::xterm_from_code!(138); };
const L139: () = { let _ = colorz::xterm_from_code!(139); };
const L140: () = { let _ = colorz::xterm_from_code!(140); };
const L141: () = { let _ = colorz::xterm_from_code!(141); };
const L142: () = { let _ = colorz::xterm_from_code!(142); };
const L143: () = { let _ = colorz::xterm_from_code!(143); };
const L144: () = { let _ = colorz::xterm_from_code!(144); };
const L145: () = { let _ = colorz::xterm_from_code!(145); };
const L146: () = { let _ = colorz::xterm_from_code!(146); };
const L147: () = { let _ = colorz::xterm_from_code!(147); };
const L148: () = { let _ = colorz::xterm_from_code!(148); };
const L149: () = { let _ = colorz::xterm_from_code!(149); };
const L150: () = { let _ = colorz::xterm_from_code!(150); };
const L151: () = { let _ = colorz::xterm_from_code!(151); };
const L152: () = { let _ = colorz::xterm_from_code!(152); };
const L153: () = { let _ = colorz::xterm_from_code!(153); };
const L154: () = { let _ = colorz::xterm_from_code!(154); };
const L155: () = { let _ = colorz::xterm_from_code!(155); };
const L156: () = { let _ = colorz::xterm_from_code!(156); };
const L157: () = { let _ = colorz::xterm_from_code!(157); };
const L158: () = { let _ = colorz::xterm_from_code!(158); };
const L159: () = { let _ = colorz::xterm_from_code!(159); };
const L160: () = { let _ = colorz::xterm_from_code!(160); };
const L161: () = { let _ = colorz::xterm_from_code!(161); };
const L162: () = { let _ = colorz::xterm_from_code!(162); };
const L163: () = { let _ = colorz::xterm_from_code!(163); };
const L164: () = { let _ = colorz::xterm_from_code!(164); };
const L165: () = { let _ = colorz::xterm_from_code!(165); };
const L166: () = { let _ = colorz::xterm_from_code!(166); };
const L167: () = { let _ = colorz::xterm_from_code!(167); };
const L168: () = { let _ = colorz::xterm_from_code!(168); };
const L169: () = { let _ = colorz::xterm_from_code!(169); };
const L170: () = { let _ = colorz::xterm_from_code!(170); };
const L171: () = { let _ = colorz::xterm_from_code!(171); };
const L172: () = { let _ = colorz::xterm_from_code!(172); };
const L173: () = { let _ = colorz::xterm_from_code!(173); };
const L174: () = { let _ = colorz::xterm_from_code!(174); };
const L175: () = { let _ = colorz::xterm_from_code!(175); };
const L176: () = { let _ = colorz::xterm_from_code!(176); };
const L177: () = { let _ = colorz::xterm_from_code!(177); };
const L178: () = { let _ = colorz::xterm_from_code!(178); };
const L179: () = { let _ = colorz::xterm_from_code!(179); };
const L180: () = { let _ = colorz::xterm_from_code!(180); };
const L181: () = { let _ = colorz::xterm_from_code!(181); };
const L182: () = { let _ = colorz::xterm_from_code!(182); };
const L183: () = { let _ = colorz::xterm_from_code!(183); };
const L184: () = { let _ = colorz::xterm_from_code!(184); };
const L185: () = { let _ = colorz::xterm_from_code!(185); };
const L186: () = { let _ = colorz::xterm_from_code!(186); };
const L187: () = { let _ = colorz::xterm_from_code!(187); };
const L188: () = { let _ = colorz::xterm_from_code!(188); };
const L189: () = { let _ = colorz::xterm_from_code!(189); };
const L190: () = { let _ = colorz::xterm_from_code!(190); };
const L191: () = { let _ = colorz::xterm_from_code!(191); };
const L192: () = { let _ = colorz::xterm_from_code!(192); };
const L193: () = { let _ = colorz::xterm_from_code!(193); };
const L194: () = { let _ = colorz::xterm_from_code!(194); };
const L195: () = { let _ = colorz::xterm_from_code!(195); };
const L196: () = { let _ = colorz::xterm_from_code!(196); };
const L197: () = { let _ = colorz::xterm_from_code!(197); };
const L198: () = { let _ = colorz::xterm_from_code!(198); };
const L199: () = { let _ = colorz::xterm_from_code!(199); };
const L200: () = { let _ = colorz::xterm_from_code!(200); };
const L201: () = { let _ = colorz::xterm_from_code!(201); };
const L202: () = { let _ = colorz::xterm_from_code!(202); };
const L203: () = { let _ = colorz::xterm_from_code!(203); };
const L204: () = { let _ = colorz::xterm_from_code!(204); };
const L205: () = { let _ = colorz::xterm_from_code!(205); };
const L206: () = { let _ = colorz::xterm_from_code!(206); };
const L207: () = { let _ = colorz::xterm_from_code!(207); };
const L208: () = { let _ = colorz::xterm_from_code!(208); };
const L209: () = { let _ = colorz::xterm_from_code!(209); };
const L210: () = { let _ = colorz::xterm_from_code!(210); };
const L211: () = { let _ = colorz::xterm_from_code!(211); };
const L212: () = { let _ = colorz::xterm_from_code!(212); };
const L213: () = { let _ = colorz::xterm_from_code!(213); };
const L214: () = { let _ = colorz::xterm_from_code!(214); };
const L215: () = { let _ = colorz::xterm_from_code!(215); };
const L216: () = { let _ = colorz::xterm_from_code!(216); };
const L217: () = { let _ = colorz::xterm_from_code!(217); };
const L218: () = { let _ = colorz::xterm_from_code!(218); };
const L219: () = { let _ = colorz::xterm_from_code!(219); };
const L220: () = { let _ = colorz::xterm_from_code!(220); };
const L221: () = { let _ = colorz::xterm_from_code!(221); };
const L222: () = { let _ = colorz::xterm_from_code!(222); };
const L223: () = { let _ = colorz::xterm_from_code!(223); };
const L224: () = { let _ = colorz::xterm_from_code!(224); };
const L225: () = { let _ = colorz::xterm_from_code!(225); };
const L226: () = { let _ = colorz::xterm_from_code!(226); };
const L227: () = { let _ = colorz::xterm_from_code!(227); };
const L228: () = { let _ = colorz::xterm_from_code!(228); };
const L229: () = { let _ = colorz::xterm_from_code!(229); };
const L230: () = { let _ = colorz::xterm_from_code!(230); };
const L231: () = { let _ = colorz::xterm_from_code!(231); };
const L232: () = { let _ = colorz::xterm_from_code!(232); };
const L233: () = { let _ = colorz::xterm_from_code!(233); };
const L234: () = { let _ = colorz::xterm_from_code!(234); };
const L235: () = { let _ = colorz::xterm_from_code!(235); };
const L236: () = { let _ = colorz::xterm_from_code!(236); };
const L237: () = { let _ = colorz::xterm_from_code!(237); };
const L238: () = { let _ = colorz::xterm_from_code!(238); };
const L239: () = { let _ = colorz::xterm_from_code!(239); };
const L240: () = { let _ = colorz::xterm_from_code!(240); };
const L241: () = { let _ = colorz::xterm_from_code!(241); };
const L242: () = { let _ = colorz::xterm_from_code!(242); };
const L243: () = { let _ = colorz::xterm_from_code!(243); };
const L244: () = { let _ = colorz::xterm_from_code!(244); };
const L245: () = { let _ = colorz::xterm_from_code!(245); };
const L246: () = { let _ = colorz::xterm_from_code!(246); };
const L247: () = { let _ = colorz::xterm_from_code!(247); };
const L248: () = { let _ = colorz::xterm_from_code!(248); };
const L249: () = { let _ = colorz::xterm_from_code!(249); };
const L250: () = { let _ = colorz::xterm_from_code!(250); };
const L251: () = { let _ = colorz::xterm_from_code!(251); };
const L252: () = { let _ = colorz::xterm_from_code!(252); };
const L253: () = { let _ = colorz::xterm_from_code!(253); };
const L254: () = { let _ = colorz::xterm_from_code!(254); };
const L255: () = { let _ = colorz::xterm_from_code!(255); };
