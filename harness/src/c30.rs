//! C30: names stand for the numbers that the TPM specification gives them.
use crate::nd;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

/// For every number on the wire: it is read as the name exactly when it is the
/// number of Part 2, and the name is sent as that number.
macro_rules! names {
    ($($g:ident $T:ident($W:ident) { $($N:ident = $v:literal,)* })*) => {harness! {$(
        $g [12] {
            let w = nd::$W();
            let b = w.to_be_bytes();
            let Ok(r) = $T::try_unmarshal(&mut UnmarshalBuf::new(&b)) else { panic!("number was rejected") };
            assert!(r.0 == w, "number that was read");
            $(assert!((r == $T::$N) == (w == $v), concat!(stringify!($T), "::", stringify!($N)));)*
            let mut o = [0; core::mem::size_of::<$W>()];
            assert!(r.try_marshal(&mut o).is_ok() && o == b, "number that is sent");
            reached!();
        }
    )*}}
}
/// The same for names that are not sent by themselves.
macro_rules! plain {
    ($($g:ident $T:ident($W:ident) { $($N:ident = $v:literal,)* })*) => {harness! {$(
        $g [12] {
            let w = nd::$W();
            $(assert!(($T(w).0 == $T::$N.0) == (w == $v), concat!(stringify!($T), "::", stringify!($N)));)*
            reached!();
        }
    )*}}
}
names! {
    tpm_alg_id TpmAlgId(u16) {
        RSA = 0x0001,
        TDES = 0x0003,
        SHA1 = 0x0004,
        HMAC = 0x0005,
        AES = 0x0006,
        MGF1 = 0x0007,
        KeyedHash = 0x0008,
        XOR = 0x000A,
        SHA256 = 0x000B,
        SHA384 = 0x000C,
        SHA512 = 0x000D,
        Null = 0x0010,
        SM3256 = 0x0012,
        SM4 = 0x0013,
        RSASSA = 0x0014,
        RSAES = 0x0015,
        RSAPSS = 0x0016,
        OAEP = 0x0017,
        ECDSA = 0x0018,
        ECDH = 0x0019,
        ECDAA = 0x001A,
        SM2 = 0x001B,
        ECSchnorr = 0x001C,
        ECMQV = 0x001D,
        KDF1SP80056A = 0x0020,
        KDF2 = 0x0021,
        KDF1SP800108 = 0x0022,
        ECC = 0x0023,
        SymCipher = 0x0025,
        Camellia = 0x0026,
        SHA3256 = 0x0027,
        SHA3384 = 0x0028,
        SHA3512 = 0x0029,
        CMAC = 0x003F,
        CTR = 0x0040,
        OFB = 0x0041,
        CBC = 0x0042,
        CFB = 0x0043,
        ECB = 0x0044,
    }
    tpm_ecc_curve TpmEccCurve(u16) {
        None = 0x0000,
        NistP192 = 0x0001,
        NistP224 = 0x0002,
        NistP256 = 0x0003,
        NistP384 = 0x0004,
        NistP521 = 0x0005,
        BNP256 = 0x0010,
        BNP638 = 0x0011,
        SM2P256 = 0x0020,
    }
    tpm_cc TpmCc(u32) {
        NVUndefineSpaceSpecial = 0x0000011F,
        EvictControl = 0x00000120,
        HierarchyControl = 0x00000121,
        NVUndefineSpace = 0x00000122,
        ChangeEPS = 0x00000124,
        ChangePPS = 0x00000125,
        Clear = 0x00000126,
        ClearControl = 0x00000127,
        ClockSet = 0x00000128,
        HierarchyChanegAuth = 0x00000129,
        NVDefineSpace = 0x0000012A,
        PCRAllocate = 0x0000012B,
        PCRSetAuthPolicy = 0x0000012C,
        PPCommands = 0x0000012D,
        SetPrimaryPolicy = 0x0000012E,
        FieldUpgradeStart = 0x0000012F,
        ClockRateAdjust = 0x00000130,
        CreatePrimary = 0x00000131,
        NVGlobalWriteLock = 0x00000132,
        GetCommandAuditDigest = 0x00000133,
        NVIncrement = 0x00000134,
        NVSetBits = 0x00000135,
        NVExtend = 0x00000136,
        NVWrite = 0x00000137,
        NVWriteLock = 0x00000138,
        DictionaryAttackLockReset = 0x00000139,
        DictionaryAttackParameters = 0x0000013A,
        NVChangeAuth = 0x0000013B,
        PCREvent = 0x0000013C,
        PCRReset = 0x0000013D,
        SequenceComplete = 0x0000013E,
        SetAlgorithmSet = 0x0000013F,
        SetCommandCodeAuditStatus = 0x00000140,
        FieldUpgradeData = 0x00000141,
        IncrementalSelfTest = 0x00000142,
        SelfTest = 0x00000143,
        Startup = 0x00000144,
        Shutdown = 0x00000145,
        StirRandom = 0x00000146,
        ActivateCredential = 0x00000147,
        Certify = 0x00000148,
        PolicyNV = 0x00000149,
        CertifyCreation = 0x0000014A,
        Duplicate = 0x0000014B,
        GetTime = 0x0000014C,
        GetSessionAuditDigest = 0x0000014D,
        NVRead = 0x0000014E,
        NVReadLock = 0x0000014F,
        ObjectChangeAuth = 0x00000150,
        PolicySecret = 0x00000151,
        Rewrap = 0x00000152,
        Create = 0x00000153,
        ECDHZGen = 0x00000154,
        MAC = 0x00000155,
        Import = 0x00000156,
        Load = 0x00000157,
        Quote = 0x00000158,
        RSADecrypt = 0x00000159,
        MACStart = 0x0000015B,
        SequenceUpdate = 0x0000015C,
        Sign = 0x0000015D,
        Unseal = 0x0000015E,
        PolicySigned = 0x00000160,
        ContextLoad = 0x00000161,
        ContextSave = 0x00000162,
        ECDHKeyGen = 0x00000163,
        EncryptDecrypt = 0x00000164,
        FlushContext = 0x00000165,
        LoadExternal = 0x00000167,
        MakeCredential = 0x00000168,
        NVReadPublic = 0x00000169,
        PolicyAuthorize = 0x0000016A,
        PolicyAuthValue = 0x0000016B,
        PolicyCommandCode = 0x0000016C,
        PolicyCounterTimer = 0x0000016D,
        PolicyCpHash = 0x0000016E,
        PolicyLocality = 0x0000016F,
        PolicyNameHash = 0x00000170,
        PolicyOR = 0x00000171,
        PolicyTicket = 0x00000172,
        ReadPublic = 0x00000173,
        RSAEncrypt = 0x00000174,
        StartAuthSession = 0x00000176,
        VerifySignature = 0x00000177,
        ECCParameters = 0x00000178,
        FirmwareRead = 0x00000179,
        GetCapability = 0x0000017A,
        GetRandom = 0x0000017B,
        GetTestResult = 0x0000017C,
        Hash = 0x0000017D,
        PCRRead = 0x0000017E,
        PolicyPCR = 0x0000017F,
        PolicyRestart = 0x00000180,
        ReadClock = 0x00000181,
        PCRExtend = 0x00000182,
        PCRSetAuthValue = 0x00000183,
        NVCertify = 0x00000184,
        EventSequenceComplete = 0x00000185,
        HashSequenceStart = 0x00000186,
        PolicyPhysicalPresence = 0x00000187,
        PolicyDuplicationSelect = 0x00000188,
        PolicyGetDigest = 0x00000189,
        TestParams = 0x0000018A,
        Commit = 0x0000018B,
        PolicyPassword = 0x0000018C,
        ZGen2Phase = 0x0000018D,
        ECEphemeral = 0x0000018E,
        PolicyNvWritten = 0x0000018F,
        PolicyTemplate = 0x00000190,
        CreateLoaded = 0x00000191,
        PolicyAuthorizeNV = 0x00000192,
        EncryptDecrypt2 = 0x00000193,
        ACGetCapability = 0x00000194,
        ACSend = 0x00000195,
        PolicyACSendSelect = 0x00000196,
        CertifyX509 = 0x00000197,
        ACTSetTimeout = 0x00000198,
    }
    tpm_st TpmSt(u16) {
        RspCommand = 0x00C4,
        Null = 0x8000,
        NoSessions = 0x8001,
        Sessions = 0x8002,
        AttestNV = 0x8014,
        AttestCommandAudit = 0x8015,
        AttestSessionAudit = 0x8016,
        AttestCertify = 0x8017,
        AttestQuote = 0x8018,
        AttestTime = 0x8019,
        AttestCreation = 0x801A,
        AttestNVDigest = 0x801C,
        Creation = 0x8021,
        Verified = 0x8022,
        AuthSecret = 0x8023,
        HashCheck = 0x8024,
        AuthSigned = 0x8025,
        FuManifest = 0x8029,
    }
    tpm_su TpmSu(u16) {
        Clear = 0x0000,
        State = 0x0001,
    }
    tpm_cap TpmCap(u32) {
        Algs = 0x00000000,
        Handles = 0x00000001,
        Commands = 0x00000002,
        PPCommands = 0x00000003,
        AuditCommands = 0x00000004,
        PCRs = 0x00000005,
        TPMProperties = 0x00000006,
        PCRProperties = 0x00000007,
        ECCCurves = 0x00000008,
        AuthPolicies = 0x00000009,
        ACT = 0x0000000A,
    }
    tpm_pt TpmPt(u32) {
        FamilyIndicator = 0x00000100,
        Level = 0x00000101,
        Revision = 0x00000102,
        DayofYear = 0x00000103,
        Year = 0x00000104,
        Manufacturer = 0x00000105,
        VendorString1 = 0x00000106,
        VendorString2 = 0x00000107,
        VendorString3 = 0x00000108,
        VendorString4 = 0x00000109,
        VendorTPMType = 0x0000010A,
        FirmwareVersion1 = 0x0000010B,
        FirmwareVersion2 = 0x0000010C,
        InputBuffer = 0x0000010D,
        HRTransientMin = 0x0000010E,
        HRPersistentMin = 0x0000010F,
        HRLoadedMin = 0x00000110,
        ActiveSessionsMax = 0x00000111,
        PCRCount = 0x00000112,
        PCRSelectMin = 0x00000113,
        ContextGapMax = 0x00000114,
        NVCountersMax = 0x00000116,
        NVIndexMax = 0x00000117,
        Memory = 0x00000118,
        ClockUpdate = 0x00000119,
        ContextHash = 0x0000011A,
        ContextSym = 0x0000011B,
        ContextSymSize = 0x0000011C,
        OrderlyCount = 0x0000011D,
        MaxCommandSize = 0x0000011E,
        MaxResponseSize = 0x0000011F,
        MaxDigest = 0x00000120,
        MaxObjectContext = 0x00000121,
        MaxSessionContext = 0x00000122,
        PSFamilyIndicator = 0x00000123,
        PSLevel = 0x00000124,
        PSRevision = 0x00000125,
        PSDayOfYear = 0x00000126,
        PSYear = 0x00000127,
        SplitMax = 0x00000128,
        TotalCommands = 0x00000129,
        LibraryCommands = 0x0000012A,
        VendorCommands = 0x0000012B,
        NVBufferMax = 0x0000012C,
        Modes = 0x0000012D,
        MaxCapBuffer = 0x0000012E,
        Permanent = 0x00000200,
        StartupClear = 0x00000201,
        HRNVIndex = 0x00000202,
        HRLoaded = 0x00000203,
        HRLoadedAvail = 0x00000204,
        HRActive = 0x00000205,
        HRActiveAvail = 0x00000206,
        HRTransientAvail = 0x00000207,
        HRPersistent = 0x00000208,
        HRPersistentAvail = 0x00000209,
        NVCounters = 0x0000020A,
        NVCountersAvail = 0x0000020B,
        AlgorithmSet = 0x0000020C,
        LoadedCurves = 0x0000020D,
        LockoutCounter = 0x0000020E,
        MaxAuthFail = 0x0000020F,
        LockoutInterval = 0x00000210,
        LockoutRecovery = 0x00000211,
        NVWriteRecovery = 0x00000212,
        AuditCounter0 = 0x00000213,
        AuditCounter1 = 0x00000214,
    }
    tpm_pt_pcr TpmPtPcr(u32) {
        Save = 0x00000000,
        ExtendL0 = 0x00000001,
        ResetL0 = 0x00000002,
        ExtendL1 = 0x00000003,
        ResetL1 = 0x00000004,
        ExtendL2 = 0x00000005,
        ResetL2 = 0x00000006,
        ExtendL3 = 0x00000007,
        ResetL3 = 0x00000008,
        ExtendL4 = 0x00000009,
        ResetL4 = 0x0000000A,
        NoIncrement = 0x00000011,
        DRTMRest = 0x00000012,
        Policy = 0x00000013,
        Auth = 0x00000014,
    }
    tpm_handle TpmHandle(u32) {
        RHOwner = 0x40000001,
        RHNull = 0x40000007,
        RSPW = 0x40000009,
        RHLockout = 0x4000000A,
        RHEndorsement = 0x4000000B,
        RHPlatform = 0x4000000C,
        RHPlatformNV = 0x4000000D,
    }
    tpm_generated TpmGenerated(u32) {
        VALUE = 0xFF544347,
    }
    tpmi_alg_hash TpmiAlgHash(u16) {
        SHA1 = 0x0004,
        SHA256 = 0x000B,
        SHA384 = 0x000C,
        SHA512 = 0x000D,
        SM3256 = 0x0012,
        SHA3256 = 0x0027,
        SHA3384 = 0x0028,
        SHA3512 = 0x0029,
    }
    tpmi_alg_kdf TpmiAlgKdf(u16) {
        MGF1 = 0x0007,
        KDF1SP80056A = 0x0020,
        KDF2 = 0x0021,
        KDF1SP800108 = 0x0022,
    }
    tpmi_alg_public TpmiAlgPublic(u16) {
        RSA = 0x0001,
        KeyedHash = 0x0008,
        ECC = 0x0023,
        SymCipher = 0x0025,
    }
    tpmi_alg_sym_mode TpmiAlgSymMode(u16) {
        CMAC = 0x003F,
        CTR = 0x0040,
        OFB = 0x0041,
        CBC = 0x0042,
        CFB = 0x0043,
        ECB = 0x0044,
    }
    tpmi_alg_sym_object TpmiAlgSymObject(u16) {
        TDES = 0x0003,
        AES = 0x0006,
        SM4 = 0x0013,
        Camellia = 0x0026,
    }
    tpmi_alg_keyedhash_scheme TpmiAlgKeyedhashScheme(u16) {
        HMAC = 0x0005,
        XOR = 0x000A,
    }
    tpmi_alg_rsa_scheme TpmiAlgRsaScheme(u16) {
        RSAPSS = 0x0016,
        RSASSA = 0x0014,
        ECDSA = 0x0018,
        ECDAA = 0x001A,
        SM2 = 0x001B,
        ECSchnorr = 0x001C,
        RSAES = 0x0015,
        OAEP = 0x0017,
    }
    tpmi_alg_sig_scheme TpmiAlgSigScheme(u16) {
        RSAPSS = 0x0016,
        RSASSA = 0x0014,
        ECDSA = 0x0018,
        ECDAA = 0x001A,
        SM2 = 0x001B,
        ECSchnorr = 0x001C,
        HMAC = 0x0005,
    }
    tpmi_alg_ecc_scheme TpmiAlgEccScheme(u16) {
        RSAPSS = 0x0016,
        RSASSA = 0x0014,
        ECDSA = 0x0018,
        ECDAA = 0x001A,
        SM2 = 0x001B,
        ECSchnorr = 0x001C,
        ECDH = 0x0019,
        ECMQV = 0x001D,
    }
    tpmi_alg_asym_scheme TpmiAlgAsymScheme(u16) {
        SM2 = 0x001B,
        ECDH = 0x0019,
        ECMQV = 0x001D,
        RSAPSS = 0x0016,
        RSASSA = 0x0014,
        ECDSA = 0x0018,
        ECDAA = 0x001A,
        ECSchnorr = 0x001C,
        RSAES = 0x0015,
        OAEP = 0x0017,
    }
    tpmi_yes_no TpmiYesNo(u8) {
        NO = 0x00,
        YES = 0x01,
    }
    tpmi_st_attest TpmiStAttest(u16) {
        AttestCertify = 0x8017,
        AttestQuote = 0x8018,
        AttestSessionAudit = 0x8016,
        AttestCommandAudit = 0x8015,
        AttestTime = 0x8019,
        AttestCreation = 0x801A,
        AttestNV = 0x8014,
        AttestNVDigest = 0x801C,
    }
    tpmi_st_command_tag TpmiStCommandTag(u16) {
        NoSessions = 0x8001,
        Sessions = 0x8002,
    }
}
plain! {
    tpm_rc TpmRc(u32) {
        Success = 0x00000000,
        Initialize = 0x00000100,
        Failure = 0x00000101,
        Sequence = 0x00000103,
        Private = 0x0000010B,
        Hmac = 0x00000119,
        Disabled = 0x00000120,
        Exclusive = 0x00000121,
        AuthType = 0x00000124,
        AuthMissing = 0x00000125,
        Policy = 0x00000126,
        Pcr = 0x00000127,
        PCRChanged = 0x00000128,
        Upgrade = 0x0000012D,
        TooManyContexts = 0x0000012E,
        AuthUnavailable = 0x0000012F,
        Reboot = 0x00000130,
        Unbalanced = 0x00000131,
        CommandSize = 0x00000142,
        CommandCode = 0x00000143,
        AuthSize = 0x00000144,
        AuthContext = 0x00000145,
        NVRange = 0x00000146,
        NVSize = 0x00000147,
        NVLocked = 0x00000148,
        NVAuthorization = 0x00000149,
        NVUninitialized = 0x0000014A,
        NVSpace = 0x0000014B,
        NVDefined = 0x0000014C,
        BadContext = 0x00000150,
        CPHash = 0x00000151,
        Parent = 0x00000152,
        NeedsTest = 0x00000153,
        NoResult = 0x00000154,
        Sensitive = 0x00000155,
        CAsymmetric = 0x00000081,
        Attributes = 0x00000082,
        Hash = 0x00000083,
        Value = 0x00000084,
        Hierarchy = 0x00000085,
        KeySize = 0x00000087,
        Mgf = 0x00000088,
        Mode = 0x00000089,
        Type = 0x0000008A,
        Handle = 0x0000008B,
        Kdf = 0x0000008C,
        Range = 0x0000008D,
        AuthFail = 0x0000008E,
        Nonce = 0x0000008F,
        PP = 0x00000090,
        Scheme = 0x00000092,
        Size = 0x00000095,
        Symmetric = 0x00000096,
        Tag = 0x00000097,
        Selector = 0x00000098,
        Insufficient = 0x0000009A,
        Signature = 0x0000009B,
        Key = 0x0000009C,
        PolicyFail = 0x0000009D,
        Integrity = 0x0000009F,
        Ticket = 0x000000A0,
        ReservedBits = 0x000000A1,
        BadAuth = 0x000000A2,
        Expired = 0x000000A3,
        PolicyCC = 0x000000A4,
        Binding = 0x000000A5,
        Curve = 0x000000A6,
        ECCPoint = 0x000000A7,
        ContextGap = 0x00000901,
        ObjectMemory = 0x00000902,
        SessionMemory = 0x00000903,
        Memory = 0x00000904,
        SessionHandles = 0x00000905,
        ObjectHandles = 0x00000906,
        Locality = 0x00000907,
        Yielded = 0x00000908,
        Canceled = 0x00000909,
        Testing = 0x0000090A,
        ReferenceH0 = 0x00000910,
        ReferenceH1 = 0x00000911,
        ReferenceH2 = 0x00000912,
        ReferenceH3 = 0x00000913,
        ReferenceH4 = 0x00000914,
        ReferenceH5 = 0x00000915,
        ReferenceH6 = 0x00000916,
        ReferenceS0 = 0x00000918,
        ReferenceS1 = 0x00000919,
        ReferenceS2 = 0x0000091A,
        ReferenceS3 = 0x0000091B,
        ReferenceS4 = 0x0000091C,
        ReferenceS5 = 0x0000091D,
        ReferenceS6 = 0x0000091E,
        NVRate = 0x00000920,
        Lockout = 0x00000921,
        Retry = 0x00000922,
        NVUnavailable = 0x00000923,
    }
    tpm_eo TpmEo(u16) {
        Eq = 0x0000,
        Neq = 0x0001,
        SignedGT = 0x0002,
        UnsignedGT = 0x0003,
        SignedLT = 0x0004,
        UnsignedLT = 0x0005,
        SignedGE = 0x0006,
        UnsignedGE = 0x0007,
        SignedLE = 0x0008,
        UnsignedLE = 0x0009,
        BitSet = 0x000A,
        BitClear = 0x000B,
    }
    tpm_se TpmSe(u8) {
        HMAC = 0x00,
        Policy = 0x01,
        Trial = 0x03,
    }
    tpm_ht TpmHt(u8) {
        PCR = 0x00,
        NVIndex = 0x01,
        HMACSession = 0x02,
        PolicySession = 0x03,
        Permanent = 0x40,
        Transient = 0x80,
        Persistent = 0x81,
        AC = 0x90,
    }
    tpm_nt TpmNt(u8) {
        Ordinary = 0x00,
        Counter = 0x01,
        Bits = 0x02,
        Extend = 0x04,
        PinFail = 0x08,
        PinPass = 0x09,
    }
}
harness! {
    /// The identifiers of the core crate.
    core_alg [12] {
        let w = nd::u16();
        let a = tpm2::Alg(w);
        assert!((a == tpm2::Alg::Rsa) == (w == 0x0001), "Alg::Rsa");
        assert!((a == tpm2::Alg::Tdes) == (w == 0x0003), "Alg::Tdes");
        assert!((a == tpm2::Alg::Sha1) == (w == 0x0004), "Alg::Sha1");
        assert!((a == tpm2::Alg::Hmac) == (w == 0x0005), "Alg::Hmac");
        assert!((a == tpm2::Alg::Aes) == (w == 0x0006), "Alg::Aes");
        assert!((a == tpm2::Alg::Mgf1) == (w == 0x0007), "Alg::Mgf1");
        assert!((a == tpm2::Alg::KeyedHash) == (w == 0x0008), "Alg::KeyedHash");
        assert!((a == tpm2::Alg::Null) == (w == 0x0010), "Alg::Null");
        assert!((a == tpm2::Alg::Xor) == (w == 0x000A), "Alg::Xor");
        assert!((a == tpm2::Alg::Sha256) == (w == 0x000B), "Alg::Sha256");
        assert!((a == tpm2::Alg::Sha384) == (w == 0x000C), "Alg::Sha384");
        assert!((a == tpm2::Alg::Sha512) == (w == 0x000D), "Alg::Sha512");
        assert!((a == tpm2::Alg::Sm3_256) == (w == 0x0012), "Alg::Sm3_256");
        assert!((a == tpm2::Alg::Sm4) == (w == 0x0013), "Alg::Sm4");
        assert!((a == tpm2::Alg::RsaSsa) == (w == 0x0014), "Alg::RsaSsa");
        assert!((a == tpm2::Alg::RsaEs) == (w == 0x0015), "Alg::RsaEs");
        assert!((a == tpm2::Alg::RsaPss) == (w == 0x0016), "Alg::RsaPss");
        assert!((a == tpm2::Alg::Oaep) == (w == 0x0017), "Alg::Oaep");
        assert!((a == tpm2::Alg::Ecdsa) == (w == 0x0018), "Alg::Ecdsa");
        assert!((a == tpm2::Alg::Ecdh) == (w == 0x0019), "Alg::Ecdh");
        assert!((a == tpm2::Alg::Ecdaa) == (w == 0x001A), "Alg::Ecdaa");
        assert!((a == tpm2::Alg::Sm2) == (w == 0x001B), "Alg::Sm2");
        assert!((a == tpm2::Alg::EcSchnorr) == (w == 0x001C), "Alg::EcSchnorr");
        assert!((a == tpm2::Alg::Ecmqv) == (w == 0x001D), "Alg::Ecmqv");
        assert!((a == tpm2::Alg::Kdf1Sp800_56A) == (w == 0x0020), "Alg::Kdf1Sp800_56A");
        assert!((a == tpm2::Alg::Kdf2) == (w == 0x0021), "Alg::Kdf2");
        assert!((a == tpm2::Alg::Kdf1Sp800_108) == (w == 0x0022), "Alg::Kdf1Sp800_108");
        assert!((a == tpm2::Alg::Ecc) == (w == 0x0023), "Alg::Ecc");
        assert!((a == tpm2::Alg::SymCipher) == (w == 0x0025), "Alg::SymCipher");
        assert!((a == tpm2::Alg::Camellia) == (w == 0x0026), "Alg::Camellia");
        assert!((a == tpm2::Alg::Sha3_256) == (w == 0x0027), "Alg::Sha3_256");
        assert!((a == tpm2::Alg::Sha3_384) == (w == 0x0028), "Alg::Sha3_384");
        assert!((a == tpm2::Alg::Sha3_512) == (w == 0x0029), "Alg::Sha3_512");
        assert!((a == tpm2::Alg::Ctr) == (w == 0x0040), "Alg::Ctr");
        assert!((a == tpm2::Alg::Ofb) == (w == 0x0041), "Alg::Ofb");
        assert!((a == tpm2::Alg::Cbc) == (w == 0x0042), "Alg::Cbc");
        assert!((a == tpm2::Alg::Cfb) == (w == 0x0043), "Alg::Cfb");
        assert!((a == tpm2::Alg::Ecb) == (w == 0x0044), "Alg::Ecb");
        reached!();
    }
    /// Both crates agree on the hash algorithms.
    both [12] {
        let w = nd::u16();
        let known = tpm2::TpmiAlgHash::try_from(tpm2::Alg(w)).is_ok();
        let h = TpmiAlgHash(w);
        let named = h == TpmiAlgHash::SHA1 || h == TpmiAlgHash::SHA256 || h == TpmiAlgHash::SHA384 || h == TpmiAlgHash::SHA512
            || h == TpmiAlgHash::SM3256 || h == TpmiAlgHash::SHA3256 || h == TpmiAlgHash::SHA3384 || h == TpmiAlgHash::SHA3512;
        assert!(known == named, "hash algorithm");
        reached!(known);
        reached!(!known);
    }
    /// Sizes.
    sizes [12] {
        assert!(TPM2_SHA_DIGEST_SIZE == 20 && TPM2_SHA1_DIGEST_SIZE == 20 && TPM2_SHA256_DIGEST_SIZE == 32 && TPM2_SHA384_DIGEST_SIZE == 48
            && TPM2_SHA512_DIGEST_SIZE == 64 && TPM2_SM3_256_DIGEST_SIZE == 32, "digest sizes");
        assert!(TpmRc::RC_VER_1 == 0x100 && TpmRc::RC_FMT_1 == 0x80 && TpmRc::RC_WARN == 0x900 && TpmRc::RC_P == 0x40 && TpmRc::RC_S == 0x800, "response code parts");
        reached!();
    }
}
