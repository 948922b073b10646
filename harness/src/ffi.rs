//! Function tables of the two libraries, loaded with dlopen: librexpat.so (the code under check) and the
//! system's libexpat.so.1 (an independent implementation of the same documented interface).
#![allow(non_snake_case)]
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_ulong, c_void};

pub type P = *mut c_void; // XML_Parser
pub type CS = *const c_char;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Content { pub ty: c_uint, pub quant: c_uint, pub name: *mut c_char, pub n: c_uint, pub children: *mut Content }
#[repr(C)]
pub struct Encoding { pub map: [c_int; 256], pub data: *mut c_void, pub convert: Option<unsafe extern "C" fn(*mut c_void, CS) -> c_int>, pub release: Option<unsafe extern "C" fn(*mut c_void)> }
#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct PStatus { pub parsing: c_int, pub final_: u8 }
#[repr(C)]
pub struct Feature { pub feature: c_uint, pub name: CS, pub value: c_long }

pub type HStart = unsafe extern "C" fn(*mut c_void, CS, *mut CS);
pub type HStr = unsafe extern "C" fn(*mut c_void, CS);
pub type HLen = unsafe extern "C" fn(*mut c_void, CS, c_int);
pub type HPi = unsafe extern "C" fn(*mut c_void, CS, CS);
pub type HNone = unsafe extern "C" fn(*mut c_void);
pub type HDoctype = unsafe extern "C" fn(*mut c_void, CS, CS, CS, c_int);
pub type HUnparsed = unsafe extern "C" fn(*mut c_void, CS, CS, CS, CS, CS);
pub type HNotation = unsafe extern "C" fn(*mut c_void, CS, CS, CS, CS);
pub type HNotSa = unsafe extern "C" fn(*mut c_void) -> c_int;
pub type HExt = unsafe extern "C" fn(P, CS, CS, CS, CS) -> c_int;
pub type HSkip = unsafe extern "C" fn(*mut c_void, CS, c_int);
pub type HUnk = unsafe extern "C" fn(*mut c_void, CS, *mut Encoding) -> c_int;
pub type HEl = unsafe extern "C" fn(*mut c_void, CS, *mut Content);
pub type HAtt = unsafe extern "C" fn(*mut c_void, CS, CS, CS, CS, c_int);
pub type HEnt = unsafe extern "C" fn(*mut c_void, CS, c_int, CS, c_int, CS, CS, CS, CS);
pub type HXd = unsafe extern "C" fn(*mut c_void, CS, CS, c_int);

extern "C" {
    fn dlopen(f: CS, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: CS) -> *mut c_void;
    fn dlerror() -> CS;
}

macro_rules! api {
    ($($f:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(dead_code)]
        pub struct Api { pub name: &'static str, pub is_rexpat: bool, $(pub $f: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            pub fn load(path: &str, name: &'static str, is_rexpat: bool) -> Result<Api, String> {
                unsafe {
                    let c = CString::new(path).unwrap();
                    let h = dlopen(c.as_ptr(), 2); // RTLD_NOW | RTLD_LOCAL
                    let h = if h.is_null() { h } else { h };
                    if h.is_null() { return Err(std::ffi::CStr::from_ptr(dlerror()).to_string_lossy().into_owned()); }
                    Ok(Api { name, is_rexpat, $($f: {
                        let s = CString::new(concat!("XML_", stringify!($f))).unwrap();
                        let p = dlsym(h, s.as_ptr());
                        if p.is_null() { return Err(format!("no symbol XML_{}", stringify!($f))); }
                        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
                    },)* })
                }
            }
        }
    };
}
api! {
    ParserCreate: fn(CS) -> P;
    ParserCreateNS: fn(CS, c_char) -> P;
    ParserCreate_MM: fn(CS, *const c_void, CS) -> P;
    ParserReset: fn(P, CS) -> u8;
    SetEncoding: fn(P, CS) -> c_int;
    ExternalEntityParserCreate: fn(P, CS, CS) -> P;
    ParserFree: fn(P);
    UseParserAsHandlerArg: fn(P);
    UseForeignDTD: fn(P, u8) -> c_int;
    SetReturnNSTriplet: fn(P, u8);
    SetUserData: fn(P, *mut c_void);
    SetBase: fn(P, CS) -> c_int;
    GetBase: fn(P) -> CS;
    GetSpecifiedAttributeCount: fn(P) -> c_int;
    GetIdAttributeIndex: fn(P) -> c_int;
    SetElementHandler: fn(P, Option<HStart>, Option<HStr>);
    SetStartElementHandler: fn(P, Option<HStart>);
    SetEndElementHandler: fn(P, Option<HStr>);
    SetCharacterDataHandler: fn(P, Option<HLen>);
    SetProcessingInstructionHandler: fn(P, Option<HPi>);
    SetCommentHandler: fn(P, Option<HStr>);
    SetCdataSectionHandler: fn(P, Option<HNone>, Option<HNone>);
    SetStartCdataSectionHandler: fn(P, Option<HNone>);
    SetEndCdataSectionHandler: fn(P, Option<HNone>);
    SetDefaultHandler: fn(P, Option<HLen>);
    SetDefaultHandlerExpand: fn(P, Option<HLen>);
    SetDoctypeDeclHandler: fn(P, Option<HDoctype>, Option<HNone>);
    SetStartDoctypeDeclHandler: fn(P, Option<HDoctype>);
    SetEndDoctypeDeclHandler: fn(P, Option<HNone>);
    SetUnparsedEntityDeclHandler: fn(P, Option<HUnparsed>);
    SetNotationDeclHandler: fn(P, Option<HNotation>);
    SetNamespaceDeclHandler: fn(P, Option<HPi>, Option<HStr>);
    SetStartNamespaceDeclHandler: fn(P, Option<HPi>);
    SetEndNamespaceDeclHandler: fn(P, Option<HStr>);
    SetNotStandaloneHandler: fn(P, Option<HNotSa>);
    SetExternalEntityRefHandler: fn(P, Option<HExt>);
    SetExternalEntityRefHandlerArg: fn(P, *mut c_void);
    SetSkippedEntityHandler: fn(P, Option<HSkip>);
    SetUnknownEncodingHandler: fn(P, Option<HUnk>, *mut c_void);
    SetElementDeclHandler: fn(P, Option<HEl>);
    SetAttlistDeclHandler: fn(P, Option<HAtt>);
    SetEntityDeclHandler: fn(P, Option<HEnt>);
    SetXmlDeclHandler: fn(P, Option<HXd>);
    SetParamEntityParsing: fn(P, c_int) -> c_int;
    SetHashSalt: fn(P, c_ulong) -> c_int;
    Parse: fn(P, CS, c_int, c_int) -> c_int;
    ParseBuffer: fn(P, c_int, c_int) -> c_int;
    GetBuffer: fn(P, c_int) -> *mut c_void;
    StopParser: fn(P, u8) -> c_int;
    ResumeParser: fn(P) -> c_int;
    GetParsingStatus: fn(P, *mut PStatus);
    GetErrorCode: fn(P) -> c_int;
    GetCurrentByteIndex: fn(P) -> c_long;
    GetCurrentByteCount: fn(P) -> c_int;
    GetInputContext: fn(P, *mut c_int, *mut c_int) -> CS;
    GetCurrentLineNumber: fn(P) -> c_ulong;
    GetCurrentColumnNumber: fn(P) -> c_ulong;
    FreeContentModel: fn(P, *mut Content);
    MemMalloc: fn(P, usize) -> *mut c_void;
    MemRealloc: fn(P, *mut c_void, usize) -> *mut c_void;
    MemFree: fn(P, *mut c_void);
    DefaultCurrent: fn(P);
    ErrorString: fn(c_int) -> CS;
    ExpatVersion: fn() -> CS;
    GetFeatureList: fn() -> *const Feature;
}

/// Optional symbol of libexpat 2.6: switches off its re-parse deferral, which 2.2.9 does not have.
pub type SetReparse = unsafe extern "C" fn(P, u8) -> u8;
pub fn opt_sym(path: &str, sym: &str) -> *mut c_void {
    unsafe {
        let c = CString::new(path).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() { return h; }
        let s = CString::new(sym).unwrap();
        dlsym(h, s.as_ptr())
    }
}

// error codes used by the models
#[allow(dead_code)]
pub mod err {
    pub const NONE: i32 = 0; pub const NO_MEMORY: i32 = 1; pub const SYNTAX: i32 = 2; pub const NO_ELEMENTS: i32 = 3;
    pub const INVALID_TOKEN: i32 = 4; pub const UNCLOSED_TOKEN: i32 = 5; pub const PARTIAL_CHAR: i32 = 6; pub const TAG_MISMATCH: i32 = 7;
    pub const DUPLICATE_ATTRIBUTE: i32 = 8; pub const JUNK_AFTER_DOC_ELEMENT: i32 = 9; pub const PARAM_ENTITY_REF: i32 = 10;
    pub const UNDEFINED_ENTITY: i32 = 11; pub const RECURSIVE_ENTITY_REF: i32 = 12; pub const ASYNC_ENTITY: i32 = 13;
    pub const BAD_CHAR_REF: i32 = 14; pub const BINARY_ENTITY_REF: i32 = 15; pub const ATTRIBUTE_EXTERNAL_ENTITY_REF: i32 = 16;
    pub const MISPLACED_XML_PI: i32 = 17; pub const UNKNOWN_ENCODING: i32 = 18; pub const INCORRECT_ENCODING: i32 = 19;
    pub const UNCLOSED_CDATA_SECTION: i32 = 20; pub const EXTERNAL_ENTITY_HANDLING: i32 = 21; pub const NOT_STANDALONE: i32 = 22;
    pub const UNEXPECTED_STATE: i32 = 23; pub const ENTITY_DECLARED_IN_PE: i32 = 24; pub const FEATURE_REQUIRES_XML_DTD: i32 = 25;
    pub const CANT_CHANGE_FEATURE_ONCE_PARSING: i32 = 26; pub const UNBOUND_PREFIX: i32 = 27; pub const UNDECLARING_PREFIX: i32 = 28;
    pub const INCOMPLETE_PE: i32 = 29; pub const XML_DECL: i32 = 30; pub const TEXT_DECL: i32 = 31; pub const PUBLICID: i32 = 32;
    pub const SUSPENDED: i32 = 33; pub const NOT_SUSPENDED: i32 = 34; pub const ABORTED: i32 = 35; pub const FINISHED: i32 = 36;
    pub const SUSPEND_PE: i32 = 37; pub const RESERVED_PREFIX_XML: i32 = 38; pub const RESERVED_PREFIX_XMLNS: i32 = 39;
    pub const RESERVED_NAMESPACE_URI: i32 = 40; pub const INVALID_ARGUMENT: i32 = 41;
    pub const NO_BUFFER: i32 = 42; pub const AMPLIFICATION: i32 = 43;
}
