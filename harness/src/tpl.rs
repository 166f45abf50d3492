//! Document templates: \x01 = the free bytes (as many as the job asks for), everything else literal.
use crate::rt::*;

pub static T: &[(&str, &[u8])] = &[
    // element content and attributes
    ("text", b"<a>\x01</a>"),
    ("tag", b"<a \x01/>"),
    ("name", b"<a\x01>"),
    ("ref", b"<a>&\x01;</a>"),
    ("attval", b"<a b='\x01'/>"),
    ("markup", b"<a><\x01></a>"),
    ("endtag", b"<a>x</\x01</a>"),
    ("excl", b"<a><!\x01--></a>"),
    ("cdata", b"<a><![CDATA[\x01]]></a>"),
    ("pi", b"<a><?\x01?></a>"),
    ("prolog", b"\x01<a/>"),
    ("epilog", b"<a/>\x01"),
    ("charref", b"<a>&#\x01;</a>"),
    ("attref", b"<a b='&\x01;'/>"),
    ("opencd", b"<a><![\x01"),
    ("opentext", b"<a>\x01"),
    ("attraw", b"<a b=\x01/>"),
    ("atts2", b"<a x='1'\x01='2'/>"),
    ("any", b"\x01"),
    ("hexref", b"<a>&#x\x01;</a>"),
    ("hexref4", b"<a>&#x1\x01;</a>"),
    ("decref", b"<a>&#111\x01;</a>"),
    ("comment", b"<a><!--\x01--></a>"),
    ("comment0", b"<!--\x01--><a/>"),
    ("comment9", b"<a/><!--\x01-->"),
    ("pi0", b"<?\x01?><a/>"),
    ("pi9", b"<a/><?\x01?>"),
    ("nest", b"<a><b>\x01</b></a>"),
    ("cdopen", b"<a><![CDATA[\x01"),
    ("cdend", b"<a><![CDATA[]\x01></a>"),
    ("u3", b"<a>\xe2\x01</a>"),
    ("u4", b"<a>\xf0\x01</a>"),
    ("uname", b"<a\xe0\x01/>"),
    ("uname2", b"<\x01/>"),
    ("utext", b"\x01</a>"),
    // XML declaration
    ("xd", b"<?xml\x01?><a/>"),
    ("xdver", b"<?xml version='\x01'?><a/>"),
    ("xdver2", b"<?xml version='1.0'\x01?><a/>"),
    ("xdenc", b"<?xml version='1.0' encoding='\x01'?><a/>"),
    ("xdenc8", b"<?xml version='1.0' encoding='UTF\x01'?><a/>"),
    ("xdsa", b"<?xml version='1.0' standalone='\x01'?><a/>"),
    ("xdsay", b"<?xml version='1.0' standalone='ye\x01?><a/>"),
    ("xdtail", b"<?xml version='1.0' encoding='utf-8' standalone='yes'\x01?><a/>"),
    ("xdboth", b"<?xml version='1.0' encoding='utf-8' \x01='yes'?><a/>"),
    // DOCTYPE
    ("dt", b"<!DOCTYPE\x01><a/>"),
    ("dtname", b"<!DOCTYPE a\x01><a/>"),
    ("dtsys", b"<!DOCTYPE a SYSTEM\x01><a/>"),
    ("dtpub", b"<!DOCTYPE a PUBLIC\x01><a/>"),
    ("dtpubid", b"<!DOCTYPE a PUBLIC '\x01' 's'><a/>"),
    ("dtpub2", b"<!DOCTYPE a PUBLIC 'p'\x01><a/>"),
    ("dtsub", b"<!DOCTYPE a[\x01]><a/>"),
    ("dtend", b"<!DOCTYPE a[]\x01<a/>"),
    ("dtdecl", b"<!DOCTYPE a[<!\x01>]><a/>"),
    // entities
    ("ent", b"<!DOCTYPE a[<!ENTITY\x01>]><a/>"),
    ("entname", b"<!DOCTYPE a[<!ENTITY \x01 'v'>]><a>&e;</a>"),
    ("entval", b"<!DOCTYPE a[<!ENTITY e '\x01'>]><a>&e;</a>"),
    ("entvala", b"<!DOCTYPE a[<!ENTITY e '\x01'>]><a b='&e;'/>"),
    ("entnodecl", b"<!DOCTYPE a[<!ENTITY e '\x01'>]><a/>"),
    ("entref", b"<!DOCTYPE a[<!ENTITY e 'v'><!ENTITY f '&e;'>]><a>&\x01;</a>"),
    ("entrefa", b"<!DOCTYPE a[<!ENTITY e 'v'><!ENTITY f '&e;'>]><a b='&\x01;'/>"),
    ("entmark", b"<!DOCTYPE a[<!ENTITY e '&#60;b>'>]><a>&e;\x01</a>"),
    ("entnest", b"<!DOCTYPE a[<!ENTITY e 'x<b/>'><!ENTITY f '&e;\x01&e;'><!ENTITY g '<c/>&f;'>]><a>&g;z</a>"),
    ("entopen", b"<!DOCTYPE a[<!ENTITY e '<b>'>]><a>&e;\x01</b></a>"),
    ("entopen2", b"<!DOCTYPE a[<!ENTITY e 'x</b>\x01'>]><a><b>&e;</a>"),
    ("entafter", b"<!DOCTYPE a[<!ENTITY e 'v<c/>'>]><a>&e;<bcd x='\x01'>w</bcd></a>"),
    ("enttail", b"<!DOCTYPE a[<!ENTITY e 'v'\x01]><a>&e;</a>"),
    ("entext", b"<!DOCTYPE a[<!ENTITY e \x01>]><a/>"),
    ("entsys", b"<!DOCTYPE a[<!ENTITY e SYSTEM \x01>]><a/>"),
    ("entsys2", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's'\x01>]><a>&e;</a>"),
    ("entpub", b"<!DOCTYPE a[<!ENTITY e PUBLIC '\x01' 's'>]><a/>"),
    ("entnd", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's' NDATA\x01>]><a/>"),
    ("entndref", b"<!DOCTYPE a[<!ENTITY e SYSTEM 's' NDATA n>]><a>\x01</a>"),
    ("entrec", b"<!DOCTYPE a[<!ENTITY e '&\x01;'><!ENTITY f '&e;'>]><a>&f;</a>"),
    ("entreca", b"<!DOCTYPE a[<!ENTITY e '&\x01;'><!ENTITY f '&e;'>]><a b='&f;'/>"),
    ("entdup", b"<!DOCTYPE a[<!ENTITY e 'v'><!ENTITY \x01 'w'>]><a>&e;</a>"),
    ("entpre", b"<!DOCTYPE a[<!ENTITY \x01 'w'>]><a>&lt;</a>"),
    // parameter entities
    ("peref", b"<!DOCTYPE a[<!ENTITY % p '<!ENTITY e \"v\">'>%\x01;]><a>&e;</a>"),
    ("pedecl", b"<!DOCTYPE a[<!ENTITY %\x01 'x'>]><a/>"),
    ("peval", b"<!DOCTYPE a[<!ENTITY % p '\x01'>%p;]><a/>"),
    ("peval2", b"<!DOCTYPE a[<!ENTITY % p '<!ELEMENT a \x01>'>%p;]><a/>"),
    ("peuse", b"<!DOCTYPE a[<!ENTITY % p 'x'><!\x01%p;>]><a/>"),
    ("penest", b"<!DOCTYPE a[<!ENTITY % p '<!ENTITY e \"v\">'><!ENTITY % q '&#37;p;\x01<!ENTITY f \"w\">'>%q;]><a>&e;&f;</a>"),
    ("perec", b"<!DOCTYPE a[<!ENTITY % p '&#37;\x01;'>%p;]><a/>"),
    ("pent", b"<!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;<!ENTITY e '\x01'>]><a>&e;</a>"),
    ("pesa", b"<?xml version='1.0' standalone='yes'?><!DOCTYPE a[<!ENTITY % p SYSTEM 's'>%p;<!ENTITY e 'v'>]><a>&\x01;</a>"),
    ("peskip", b"<!DOCTYPE a[%p;<!ENTITY e 'v'>]><a>&\x01;</a>"),
    ("extskip", b"<!DOCTYPE a SYSTEM 's' [<!ENTITY e 'v'>]><a b='&\x01;'>&\x01;</a>"),
    // attribute declarations
    ("att", b"<!DOCTYPE a[<!ATTLIST\x01>]><a/>"),
    ("attname", b"<!DOCTYPE a[<!ATTLIST a \x01 CDATA 'v'>]><a/>"),
    ("atttype", b"<!DOCTYPE a[<!ATTLIST a b \x01 'v'>]><a/>"),
    ("attenum", b"<!DOCTYPE a[<!ATTLIST a b (\x01) 'v'>]><a/>"),
    ("attnot", b"<!DOCTYPE a[<!ATTLIST a b NOTATION (\x01) 'v'>]><a/>"),
    ("attdflt", b"<!DOCTYPE a[<!ATTLIST a b CDATA \x01>]><a/>"),
    ("attdval", b"<!DOCTYPE a[<!ATTLIST a b CDATA '\x01'>]><a/>"),
    ("attdtok", b"<!DOCTYPE a[<!ATTLIST a b NMTOKENS '\x01'>]><a/>"),
    ("attfix", b"<!DOCTYPE a[<!ATTLIST a b CDATA #FIXED\x01>]><a/>"),
    ("atttok", b"<!DOCTYPE a[<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='\x01'/>"),
    ("atttok2", b"<!DOCTYPE a[<!ATTLIST a b (x|y) 'x'>]><a b=' \x01y'/>"),
    ("attcd", b"<!DOCTYPE a[<!ATTLIST a b CDATA #IMPLIED>]><a b='\x01'/>"),
    ("attspec", b"<!DOCTYPE a[<!ATTLIST a b CDATA 'v' c CDATA 'w'>]><a \x01='z'/>"),
    ("attel", b"<!DOCTYPE a[<!ATTLIST \x01 b CDATA 'v'>]><a><b/></a>"),
    ("attdup", b"<!DOCTYPE a[<!ATTLIST a b CDATA 'v' \x01 ID 'w'>]><a b=' x  y '/>"),
    ("attdup2", b"<!DOCTYPE a[<!ATTLIST a b CDATA 'v'><!ATTLIST a \x01 NMTOKEN ' w '>]><a/>"),
    ("attdent", b"<!DOCTYPE a[<!ENTITY e ' x '><!ATTLIST a b NMTOKENS '&e;\x01'>]><a/>"),
    ("atttokent", b"<!DOCTYPE a[<!ENTITY e ' x '><!ATTLIST a b NMTOKENS #IMPLIED>]><a b='&e;\x01&e;'/>"),
    // element declarations
    ("el", b"<!DOCTYPE a[<!ELEMENT\x01>]><a/>"),
    ("elcont", b"<!DOCTYPE a[<!ELEMENT a \x01>]><a/>"),
    ("elgrp", b"<!DOCTYPE a[<!ELEMENT a (\x01)>]><a/>"),
    ("elgrp2", b"<!DOCTYPE a[<!ELEMENT a (b,\x01)*>]><a/>"),
    ("elgrp3", b"<!DOCTYPE a[<!ELEMENT a ((b|c)\x01)>]><a/>"),
    ("elgrp4", b"<!DOCTYPE a[<!ELEMENT a (((b)\x01c)+,d)>]><a/>"),
    ("elmix", b"<!DOCTYPE a[<!ELEMENT a (#PCDATA\x01>]><a/>"),
    ("elmix2", b"<!DOCTYPE a[<!ELEMENT a (#\x01)>]><a/>"),
    ("elname", b"<!DOCTYPE a[<!ELEMENT \x01 EMPTY>]><a/>"),
    ("eltail", b"<!DOCTYPE a[<!ELEMENT a (b)\x01]><a/>"),
    // notations
    ("not", b"<!DOCTYPE a[<!NOTATION\x01>]><a/>"),
    ("notname", b"<!DOCTYPE a[<!NOTATION \x01 SYSTEM 's'>]><a/>"),
    ("notpub", b"<!DOCTYPE a[<!NOTATION n PUBLIC '\x01'>]><a/>"),
    ("notpub2", b"<!DOCTYPE a[<!NOTATION n PUBLIC 'p'\x01>]><a/>"),
    ("notsys", b"<!DOCTYPE a[<!NOTATION n SYSTEM\x01>]><a/>"),
    // comments / PIs in the subset
    ("dtcom", b"<!DOCTYPE a[<!--\x01-->]><a/>"),
    ("dtpi", b"<!DOCTYPE a[<?\x01?>]><a/>"),
    ("dtcond", b"<!DOCTYPE a[<![\x01[]]>]><a/>"),
    // namespaces
    ("nsname", b"<\x01 xmlns:p='u'/>"),
    ("nsattr", b"<a xmlns:p='u' \x01='v'/>"),
    ("nsdecl", b"<a xmlns\x01='u'/>"),
    ("nsuri", b"<p:a xmlns:p='\x01'/>"),
    ("nsdef", b"<a xmlns='\x01'><b/></a>"),
    ("nsundef", b"<a xmlns='u'><b xmlns='\x01'><c/></b><d/></a>"),
    ("nsnest", b"<p:a xmlns:p='u'><p:b xmlns:\x01='w'/><p:c/></p:a>"),
    ("nsdup", b"<a xmlns:p='u' xmlns:q='\x01' p:x='1' q:x='2'/>"),
    ("nsdup2", b"<a xmlns:p='u' xmlns:q='u' p:x='1' q:\x01='2'/>"),
    ("nsdup3", b"<a xmlns:\x01='u' xmlns:q='u'/>"),
    ("nsxml", b"<a xml:\x01='v'/>"),
    ("nsxmlp", b"<a xmlns:xml='http://www.w3.org/XML/1998/namespac\x01'/>"),
    ("nsxmlq", b"<a xmlns:q='http://www.w3.org/XML/1998/namespac\x01'/>"),
    ("nsxmlns", b"<a xmlns:q='http://www.w3.org/2000/xmlns\x01'/>"),
    ("nsend", b"<p:a xmlns:p='u'></\x01>"),
    ("nsent", b"<!DOCTYPE a[<!ENTITY e '<p:b \x01=\"w\"/>'>]><a xmlns:p='u'>&e;</a>"),
    ("nsatt", b"<!DOCTYPE a[<!ATTLIST a xmlns:p CDATA '\x01'>]><a><p:b/></a>"),
    ("nsattd", b"<!DOCTYPE a[<!ATTLIST a xmlns CDATA 'u' p:b CDATA 'v'>]><a xmlns\x01='w'/>"),
    ("nspi", b"<a><?\x01?><!--:--></a>"),
    ("nsdoc", b"<!DOCTYPE \x01[]><a/>"),
    ("nsentn", b"<!DOCTYPE a[<!ENTITY \x01 'v'>]><a/>"),
    ("nsref", b"<a>&\x01;</a>"),
    // long character references, references in tokenized values
    ("hexlong", b"<a>&#x1000000\x01;</a>"),
    ("declong", b"<a>&#4294967\x01;</a>"),
    ("refattlong", b"<a b='&#x1000000\x01;'/>"),
    ("atttokref", b"<!DOCTYPE a[<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='\x01&#32;\x01&#x20;y&#x20;'/>"),
    ("attcdref", b"<!DOCTYPE a[<!ATTLIST a b CDATA #IMPLIED>]><a b='&#32;\x01&#x20;&#13;&#10;y&#9;'/>"),
    ("attdtokref", b"<!DOCTYPE a[<!ATTLIST a b NMTOKENS '&#32;\x01&#x20;y&#x20;'>]><a/>"),
    // several of everything
    ("tour", b"<?xml version='1.0'?>\n<!--a--><!--b--> <?c d?><?e f?><!DOCTYPE g [\n<!ELEMENT g ANY> <!ELEMENT h (i|j)*><!ATTLIST g k CDATA 'l' m ID #IMPLIED><!ATTLIST h n (o|p) 'o'><!NOTATION q SYSTEM 'r'><!NOTATION s PUBLIC 't' 'u'><!--v--><!--w--><?x y?><?z a?>]> <!--b--><!--c--><?d e?><?f g?>\n<g>h\n<!--i--><!--j-->k<?l m?><?n o?><![CDATA[p\r\n]]><![CDATA[q]]>\x01&lt;&#65;<h/><h></h><h n='p'>r\r</h></g>\n<!--s--><!--t--><?u v?> <?w x?><!--y-->\n\x01"),
    ("tourent", b"<!DOCTYPE a [<!ENTITY b 'c<d>e</d><!--f--><?g h?>'><!ENTITY i 'j&b;&k;<![CDATA[l]]>'><!ENTITY k '&#60;m/>n'><!ENTITY o SYSTEM 'p'><!ENTITY q PUBLIC 'r' 's'><!NOTATION t SYSTEM 'u'><!ENTITY v SYSTEM 'w' NDATA t><!ATTLIST a x CDATA 'y&k2;z'><!ENTITY k2 '2'>]><a>&b;\x01&i;&o;&q;<b x='&k2;&k2;'/>&k;&k;</a><!--c--><?d e?>"),
    ("tourns", b"<a:b xmlns:a='c' xmlns='d' e='f' a:g='h'><i xmlns='' a:j='k'><a:l xmlns:a='m' xmlns:n='c' a:o='p' n:o='q'/><a:r/></i>\x01<s/><a:t xmlns:a='u'><a:v></a:v></a:t></a:b><!--w-->"),
    ("tourpe", b"<!DOCTYPE a SYSTEM 's' [<!ENTITY % b '<!ELEMENT c (d,e)><!--f-->'>%b;<!ENTITY % g '%b;<?h i?><!ATTLIST c j CDATA \"k\">'>%b;<!ENTITY % l SYSTEM 'm'>%l;\x01<!ENTITY n 'o'>%g;<!ENTITY % p PUBLIC 'q' 'r'>%p;]><a>&n;<c/></a>"),
    ("deep", b"<!DOCTYPE a[<!ELEMENT a ((b|c),(d,e),(f|g)\x01)><!ELEMENT h ((i,(j|k)),((l)|m)?)>]><a/>"),
    ("sq", b"<a>]]\x01]</a>"),
    ("crlf", b"<a>\r\x01\n</a>"),
    ("crlf2", b"<a b='\r\x01\n'>x\r\n<![CDATA[\r\x01\r]]><?c \r\nd?><!--\r\r\n--></a>\r\x01"),
];

pub unsafe fn build(d: &mut Doc, t: &[u8], n: usize) {
    let mut i = 0;
    while i < t.len() {
        if t[i] == 1 {
            let mut k = 0;
            while k < n {
                d.sym();
                k += 1;
            }
        } else {
            d.push(t[i]);
        }
        i += 1;
    }
}

/// the document of template `i` with `n` free bytes per hole
pub unsafe fn doc(i: u64, n: u64) -> Doc {
    let t = T[i as usize].1;
    let mut d = Doc::new(t.len() + 4 * n as usize + 8);
    build(&mut d, t, n as usize);
    d
}
