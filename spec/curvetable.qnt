/// The domain parameters of the predefined curves (C15), pinned from the
/// standards each curve names; `params` checks what follows from them.
module curvetable {
  import octets.* from "./octets"
  /// fam 1 short Weierstrass, 2 Koblitz, 3 twisted Edwards, 4 Edwards, 5
  /// Montgomery; b holds d for (twisted) Edwards curves; a and b modulo p;
  /// alias: another name of a curve above; extras: seed, seed_c, seed_p,
  /// seed_ab, z, q (-1 where the curve has none)
  type Row = { name: Oct, id: Oct, fam: int, alias: bool, p: int, a: int, b: int,
    xG: int, yG: int, n: int, h: int, size: int, oid: List[int], extras: List[int] }
  pure val ROWS0: List[Row] = List(
    // BrainPoolP160r1
    { name: { n: 15, v: 0x427261696e506f6f6c503136307231 }, id: { n: 15, v: 0x627261696e706f6f6c503136307231 }, fam: 1, alias: false,
      p: 0xe95e4a5f737059dc60dfc7ad95b3d8139515620f, a: 0x340e7be2a280eb74e2be61bada745d97e8f7c300, b: 0x1e589a8595423412134faa2dbdec95c8d8675e58,
      xG: 0xbed5af16ea3f6a4f62938c4631eb5af7bdbcdbc3, yG: 0x1667cb477a1a8ec338f94741669c976316da6321,
      n: 0xe95e4a5f737059dc60df5991d45029409e60fc09, h: 1, size: 20, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 1),
      extras: List(-1, -1, 286965175440513682586550324983956945528384689026, 248298333938733449279578544722038457148713628000, -1, -1) },
    // BrainPoolP160t1
    { name: { n: 15, v: 0x427261696e506f6f6c503136307431 }, id: { n: 15, v: 0x627261696e706f6f6c503136307431 }, fam: 1, alias: false,
      p: 0xe95e4a5f737059dc60dfc7ad95b3d8139515620f, a: 0xe95e4a5f737059dc60dfc7ad95b3d8139515620c, b: 0x7a556b6dae535b7b51ed2c4d7daa7a0b5c55f380,
      xG: 0xb199b13b9b34efc1397e64baeb05acc265ff2378, yG: 0xadd6718b7c7c1961f0991b842443772152c9e0ad,
      n: 0xe95e4a5f737059dc60df5991d45029409e60fc09, h: 1, size: 20, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 2),
      extras: List(-1, -1, -1, -1, 210429776541814856331936357627367934503655791883, -1) },
    // BrainPoolP192r1
    { name: { n: 15, v: 0x427261696e506f6f6c503139327231 }, id: { n: 15, v: 0x627261696e706f6f6c503139327231 }, fam: 1, alias: false,
      p: 0xc302f41d932a36cda7a3463093d18db78fce476de1a86297, a: 0x6a91174076b1e0e19c39c031fe8685c1cae040e5c69a28ef, b: 0x469a28ef7c28cca3dc721d044f4496bcca7ef4146fbf25c9,
      xG: 0xc0a0647eaab6a48753b033c56cb0f0900a2f5c4853375fd6, yG: 0x14b690866abd5bb88b5f4828c1490002e6773fa2fa299b8f,
      n: 0xc302f41d932a36cda7a3462f9e9e916b5be8f1029ac4acc1, h: 1, size: 24, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 3),
      extras: List(-1, -1, 197538878377735647132981602737505699811633725751, 1390391324826918864851170583912348128991133487038, -1, -1) },
    // BrainPoolP192t1
    { name: { n: 15, v: 0x427261696e506f6f6c503139327431 }, id: { n: 15, v: 0x627261696e706f6f6c503139327431 }, fam: 1, alias: false,
      p: 0xc302f41d932a36cda7a3463093d18db78fce476de1a86297, a: 0xc302f41d932a36cda7a3463093d18db78fce476de1a86294, b: 0x13d56ffaec78681e68f9deb43b35bec2fb68542e27897b79,
      xG: 0x3ae9e58c82f63c30282e1fe7bbf43fa72c446af6f4618129, yG: 0x97e2c5667c2223a902ab5ca449d0084b7e5b3de7ccc01c9,
      n: 0xc302f41d932a36cda7a3462f9e9e916b5be8f1029ac4acc1, h: 1, size: 24, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 4),
      extras: List(-1, -1, -1, -1, 672704476307714505490394247161148389059957832381303424203, -1) },
    // BrainPoolP224r1
    { name: { n: 15, v: 0x427261696e506f6f6c503232347231 }, id: { n: 15, v: 0x627261696e706f6f6c503232347231 }, fam: 1, alias: false,
      p: 0xd7c134aa264366862a18302575d1d787b09f075797da89f57ec8c0ff, a: 0x68a5e62ca9ce6c1c299803a6c1530b514e182ad8b0042a59cad29f43, b: 0x2580f63ccfe44138870713b1a92369e33e2135d266dbb372386c400b,
      xG: 0xd9029ad2c7e5cf4340823b2a87dc68c9e4ce3174c1e6efdee12c07d, yG: 0x58aa56f772c0726f24c6b89e4ecdac24354b9e99caa3f6d3761402cd,
      n: 0xd7c134aa264366862a18302575d0fb98d116bc4b6ddebca3a5a7939f, h: 1, size: 28, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 5),
      extras: List(-1, -1, 707318870395716963406715021775612657583309475163, 544048356754183225536470646713043992276836534197, -1, -1) },
    // BrainPoolP224t1
    { name: { n: 15, v: 0x427261696e506f6f6c503232347431 }, id: { n: 15, v: 0x627261696e706f6f6c503232347431 }, fam: 1, alias: false,
      p: 0xd7c134aa264366862a18302575d1d787b09f075797da89f57ec8c0ff, a: 0xd7c134aa264366862a18302575d1d787b09f075797da89f57ec8c0fc, b: 0x4b337d934104cd7bef271bf60ced1ed20da14c08b3bb64f18a60888d,
      xG: 0x6ab1e344ce25ff3896424e7ffe14762ecb49f8928ac0c76029b4d580, yG: 0x374e9f5143e568cd23f3f4d7c0d4b1e41c8cc0d1c6abd5f1a46db4c,
      n: 0xd7c134aa264366862a18302575d0fb98d116bc4b6ddebca3a5a7939f, h: 1, size: 28, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 6),
      extras: List(-1, -1, -1, -1, 4838789148821049789877472668024257377402240944132783179394210499391, -1) },
    // BrainPoolP256r1
    { name: { n: 15, v: 0x427261696e506f6f6c503235367231 }, id: { n: 15, v: 0x627261696e706f6f6c503235367231 }, fam: 1, alias: false,
      p: 0xa9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377, a: 0x7d5a0975fc2c3057eef67530417affe7fb8055c126dc5c6ce94a4b44f330b5d9, b: 0x26dc5c6ce94a4b44f330b5d9bbd77cbf958416295cf7e1ce6bccdc18ff8c07b6,
      xG: 0x8bd2aeb9cb7e57cb2c4b482ffc81b7afb9de27e1e3bd23c23a4453bd9ace3262, yG: 0x547ef835c3dac4fd97f8461a14611dc9c27745132ded8e545c1d54c72f046997,
      n: 0xa9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7, h: 1, size: 32, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 7),
      extras: List(-1, -1, 521401228819623681217204122498917808859408890714, 670791897861999917574993078350313254924433704636, -1, -1) },
    // BrainPoolP256t1
    { name: { n: 15, v: 0x427261696e506f6f6c503235367431 }, id: { n: 15, v: 0x627261696e706f6f6c503235367431 }, fam: 1, alias: false,
      p: 0xa9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377, a: 0xa9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5374, b: 0x662c61c430d84ea4fe66a7733d0b76b7bf93ebc4af2f49256ae58101fee92b04,
      xG: 0xa3e8eb3cc1cfe7b7732213b23a656149afa142c47aafbc2b79a191562e1305f4, yG: 0x2d996c823439c56d7f7b22e14644417e69bcb6de39d027001dabe8f35b25c9be,
      n: 0xa9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7, h: 1, size: 32, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 8),
      extras: List(-1, -1, -1, -1, -1, -1) })
  pure val ROWS1: List[Row] = List(
    // BrainPoolP320r1
    { name: { n: 15, v: 0x427261696e506f6f6c503332307231 }, id: { n: 15, v: 0x627261696e706f6f6c503332307231 }, fam: 1, alias: false,
      p: 0xd35e472036bc4fb7e13c785ed201e065f98fcfa6f6f40def4f92b9ec7893ec28fcd412b1f1b32e27, a: 0x3ee30b568fbab0f883ccebd46d3f3bb8a2a73513f5eb79da66190eb085ffa9f492f375a97d860eb4, b: 0x520883949dfdbc42d3ad198640688a6fe13f41349554b49acc31dccd884539816f5eb4ac8fb1f1a6,
      xG: 0x43bd7e9afb53d8b85289bcc48ee5bfe6f20137d10a087eb6e7871e2a10a599c710af8d0d39e20611, yG: 0x14fdd05545ec1cc8ab4093247f77275e0743ffed117182eaa9c77877aaac6ac7d35245d1692e8ee1,
      n: 0xd35e472036bc4fb7e13c785ed201e065f98fcfa5b68f12a32d482ec7ee8658e98691555b44c59311, h: 1, size: 40, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 9),
      extras: List(-1, -1, 1113249644270864828779157709225242389163815717124, 1354943523408334708256351519354692819514160685686, -1, -1) },
    // BrainPoolP320t1
    { name: { n: 15, v: 0x427261696e506f6f6c503332307431 }, id: { n: 15, v: 0x627261696e706f6f6c503332307431 }, fam: 1, alias: false,
      p: 0xd35e472036bc4fb7e13c785ed201e065f98fcfa6f6f40def4f92b9ec7893ec28fcd412b1f1b32e27, a: 0xd35e472036bc4fb7e13c785ed201e065f98fcfa6f6f40def4f92b9ec7893ec28fcd412b1f1b32e24, b: 0xa7f561e038eb1ed560b3d147db782013064c19f27ed27c6780aaf77fb8a547ceb5b4fef422340353,
      xG: 0x925be9fb01afc6fb4d3e7d4990010f813408ab106c4f09cb7ee07868cc136fff3357f624a21bed52, yG: 0x63ba3a7a27483ebf6671dbef7abb30ebee084e58a0b077ad42a5a0989d1ee71b1b9bc0455fb0d2c3,
      n: 0xd35e472036bc4fb7e13c785ed201e065f98fcfa5b68f12a32d482ec7ee8658e98691555b44c59311, h: 1, size: 40, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 10),
      extras: List(-1, -1, -1, -1, 183279852906418456866145565241602515515003883512760677816350230792011585667310571642864014706609, -1) },
    // BrainPoolP384r1
    { name: { n: 15, v: 0x427261696e506f6f6c503338347231 }, id: { n: 15, v: 0x627261696e706f6f6c503338347231 }, fam: 1, alias: false,
      p: 0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53, a: 0x7bc382c63d8c150c3c72080ace05afa0c2bea28e4fb22787139165efba91f90f8aa5814a503ad4eb04a8c7dd22ce2826, b: 0x4a8c7dd22ce28268b39b55416f0447c2fb77de107dcd2a62e880ea53eeb62d57cb4390295dbc9943ab78696fa504c11,
      xG: 0x1d1c64f068cf45ffa2a63a81b7c13f6b8847a3e77ef14fe3db7fcafe0cbd10e8e826e03436d646aaef87b2e247d4af1e, yG: 0x8abe1d7520f9c2a45cb1eb8e95cfd55262b70b29feec5864e19c054ff99129280e4646217791811142820341263c5315,
      n: 0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565, h: 1, size: 48, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 11),
      extras: List(-1, -1, 542772956911500125797729502645732364216230801345, 1078909539739193602534107170608814590840466742878, -1, -1) },
    // BrainPoolP384t1
    { name: { n: 15, v: 0x427261696e506f6f6c503338347431 }, id: { n: 15, v: 0x627261696e706f6f6c503338347431 }, fam: 1, alias: false,
      p: 0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53, a: 0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec50, b: 0x7f519eada7bda81bd826dba647910f8c4b9346ed8ccdc64e4b1abd11756dce1d2074aa263b88805ced70355a33b471ee,
      xG: 0x18de98b02db9a306f2afcd7235f72a819b80ab12ebd653172476fecd462aabffc4ff191b946a5f54d8d0aa2f418808cc, yG: 0x25ab056962d30651a114afd2755ad336747f93475b7a1fca3b88f2b6a208ccfe469408584dc2b2912675bf5b9e582928,
      n: 0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565, h: 1, size: 48, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 12),
      extras: List(-1, -1, -1, -1, 10139036126163910574620687986475896248191461332265326844160406748298975174383177910892554122725859199832993833756956, -1) },
    // BrainPoolP512r1
    { name: { n: 15, v: 0x427261696e506f6f6c503531327231 }, id: { n: 15, v: 0x627261696e706f6f6c503531327231 }, fam: 1, alias: false,
      p: 0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3, a: 0x7830a3318b603b89e2327145ac234cc594cbdd8d3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94ca, b: 0x3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94cadc083e67984050b75ebae5dd2809bd638016f723,
      xG: 0x81aee4bdd82ed9645a21322e9c4c6a9385ed9f70b5d916c1b43b62eef4d0098eff3b1f78e2d0d48d50d1687b93b97d5f7c6d5047406a5e688b352209bcb9f822, yG: 0x7dde385d566332ecc0eabfa9cf7822fdf209f70024a57b1aa000c55b881f8111b2dcde494a5f485e5bca4bd88a2763aed1ca2b2fa8f0540678cd1e0f3ad80892,
      n: 0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069, h: 1, size: 64, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 13),
      extras: List(-1, -1, 583534021861726280784363099545640158208103896904, 999133002594528606761828771935772935797299918509, -1, -1) },
    // BrainPoolP512t1
    { name: { n: 15, v: 0x427261696e506f6f6c503531327431 }, id: { n: 15, v: 0x627261696e706f6f6c503531327431 }, fam: 1, alias: false,
      p: 0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3, a: 0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f0, b: 0x7cbbbcf9441cfab76e1890e46884eae321f70c0bcb4981527897504bec3e36a62bcdfa2304976540f6450085f2dae145c22553b465763689180ea2571867423e,
      xG: 0x640ece5c12788717b9c1ba06cbc2a6feba85842458c56dde9db1758d39c0313d82ba51735cdb3ea499aa77a7d6943a64f7a3f25fe26f06b51baa2696fa9035da, yG: 0x5b534bd595f5af0fa2c892376c84ace1bb4e3019b71634c01131159cae03cee9d9932184beef216bd71df2dadf86a627306ecff96dbb8bace198b61e00f8b332,
      n: 0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069, h: 1, size: 64, oid: List(1, 3, 36, 3, 2, 8, 1, 1, 14),
      extras: List(-1, -1, -1, -1, 991499226562423240707238969854191803283135655252145369940930554083306347815155671309652727398612984228200765170213561192701880842172378355832835555271339, -1) },
    // Curve25519
    { name: { n: 10, v: 0x43757276653235353139 }, id: { n: 10, v: 0x63757276653235353139 }, fam: 5, alias: false,
      p: 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed, a: 0x76d06, b: 0x0,
      xG: 0x9, yG: 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9,
      n: 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed, h: 8, size: 32, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // Curve3617
    { name: { n: 9, v: 0x437572766533363137 }, id: { n: 9, v: 0x637572766533363137 }, fam: 4, alias: false,
      p: 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffef, a: 0x1, b: 0xe21,
      xG: 0x1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595, yG: 0x22,
      n: 0x7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79, h: 8, size: 52, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) })
  pure val ROWS2: List[Row] = List(
    // E382
    { name: { n: 4, v: 0x45333832 }, id: { n: 4, v: 0x65333832 }, fam: 4, alias: false,
      p: 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff97, a: 0x1, b: 0x3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffef8e1,
      xG: 0x196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603, yG: 0x11,
      n: 0xfffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719, h: 4, size: 48, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // E521
    { name: { n: 4, v: 0x45353231 }, id: { n: 4, v: 0x65353231 }, fam: 4, alias: false,
      p: 0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, a: 0x1, b: 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa4331,
      xG: 0x752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c, yG: 0xc,
      n: 0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b, h: 4, size: 66, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // Ed25519
    { name: { n: 7, v: 0x45643235353139 }, id: { n: 7, v: 0x45643235353139 }, fam: 4, alias: false,
      p: 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed, a: 0x1, b: 0x2dfc9311d490018c7338bf8688861767ff8ff5b2bebe27548a14b235eca6874a,
      xG: 0x6a6597b61bb3c380f9e4c2a8f03b12a4a2eb3745bdac20b63381207f0acc5252, yG: 0x6666666666666666666666666666666666666666666666666666666666666658,
      n: 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed, h: 8, size: 32, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // FRP256v1
    { name: { n: 8, v: 0x4652503235367631 }, id: { n: 8, v: 0x6672703235367631 }, fam: 1, alias: false,
      p: 0xf1fd178c0b3ad58f10126de8ce42435b3961adbcabc8ca6de8fcf353d86e9c03, a: 0xf1fd178c0b3ad58f10126de8ce42435b3961adbcabc8ca6de8fcf353d86e9c00, b: 0xee353fca5428a9300d4aba754a44c00fdfec0c9ae4b1a1803075ed967b7bb73f,
      xG: 0xb6b3d4c356c139eb31183d4749d423958c27d2dcaf98b70164c97a2dd98f5cff, yG: 0x6142e0f7c8b204911f9271f0f3ecef8c2701c307e8e4c9e183115a1554062cfb,
      n: 0xf1fd178c0b3ad58f10126de8ce42435b53dc67e140d2bf941ffdd459c6d655e1, h: 1, size: 32, oid: List(1, 2, 250, 1, 223, 101, 256, 1),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOST2001_CryptoPro_A
    { name: { n: 20, v: 0x474f5354323030315f43727970746f50726f5f41 }, id: { n: 20, v: 0x474f5354323030312d43727970746f50726f2d41 }, fam: 1, alias: false,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97, a: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd94, b: 0xa6,
      xG: 0x1, yG: 0x8d91e471e0989cda27df505a453f2b7635294f2ddf23e3b122acc99c9e9f1e14,
      n: 0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893, h: 1, size: 32, oid: List(1, 2, 643, 2, 2, 35, 1),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOST2001_CryptoPro_B
    { name: { n: 20, v: 0x474f5354323030315f43727970746f50726f5f42 }, id: { n: 20, v: 0x474f5354323030312d43727970746f50726f2d42 }, fam: 1, alias: false,
      p: 0x8000000000000000000000000000000000000000000000000000000000000c99, a: 0x8000000000000000000000000000000000000000000000000000000000000c96, b: 0x3e1af419a269a5f866a7d3c25c3df80ae979259373ff2b182f49d4ce7e1bbc8b,
      xG: 0x1, yG: 0x3fa8124359f96680b83d1c3eb2c070e5c545c9858d03ecfb744bf8d717717efc,
      n: 0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f, h: 1, size: 32, oid: List(1, 2, 643, 2, 2, 35, 2),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOST2001_CryptoPro_C
    { name: { n: 20, v: 0x474f5354323030315f43727970746f50726f5f43 }, id: { n: 20, v: 0x474f5354323030312d43727970746f50726f2d43 }, fam: 1, alias: false,
      p: 0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d759b, a: 0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d7598, b: 0x805a,
      xG: 0x0, yG: 0x41ece55743711a8c3cbf3783cd08c0ee4d4dc440d4641a8f366e550dfdb3bb67,
      n: 0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9, h: 1, size: 32, oid: List(1, 2, 643, 2, 2, 35, 3),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOST2001_test
    { name: { n: 13, v: 0x474f5354323030315f74657374 }, id: { n: 13, v: 0x474f5354323030312d74657374 }, fam: 1, alias: false,
      p: 0x8000000000000000000000000000000000000000000000000000000000000431, a: 0x7, b: 0x5fbff498aa938ce739b8e022fbafef40563f6e6a3472fc2a514c0ce9dae23b7e,
      xG: 0x2, yG: 0x8e2a8a0e65147d4bd6316030e16d19c85c97f0a9ca267122b96abbcea7e8fc8,
      n: 0x8000000000000000000000000000000150fe8a1892976154c59cfc193accf5b3, h: 1, size: 32, oid: List(1, 2, 643, 2, 2, 35, 0),
      extras: List(-1, -1, -1, -1, -1, -1) })
  pure val ROWS3: List[Row] = List(
    // GOST2012_tc26_A
    { name: { n: 15, v: 0x474f5354323031325f746332365f41 }, id: { n: 15, v: 0x474f5354323031322d746332362d41 }, fam: 1, alias: false,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7, a: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc4, b: 0xe8c2505dedfc86ddc1bd0b2b6667f1da34b82574761cb0e879bd081cfd0b6265ee3cb090f30d27614cb4574010da90dd862ef9d4ebee4761503190785a71c760,
      xG: 0x3, yG: 0x7503cfe87a836ae3a61b8816e25450e6ce5e1c93acf1abc1778064fdcbefa921df1626be4fd036e93d75e6a50e3a41e98028fe5fc235f5b889a589cb5215f2a4,
      n: 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275, h: 1, size: 64, oid: List(1, 2, 643, 7, 1, 2, 1, 2, 1),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOST2012_tc26_B
    { name: { n: 15, v: 0x474f5354323031325f746332365f42 }, id: { n: 15, v: 0x474f5354323031322d746332362d42 }, fam: 1, alias: false,
      p: 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f, a: 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c, b: 0x687d1b459dc841457e3e06cf6f5e2517b97c7d614af138bcbf85dc806c4b289f3e965d2db1416d217f8b276fad1ab69c50f78bee1fa3106efb8ccbc7c5140116,
      xG: 0x2, yG: 0x1a8f7eda389b094c2c071e3647a8940f3c123b697578c213be6dd9e6c8ec7335dcb228fd1edf4a39152cbcaaf8c0398828041055f94ceeec7e21340780fe41bd,
      n: 0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd, h: 1, size: 64, oid: List(1, 2, 643, 7, 1, 2, 1, 2, 2),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOST2012_test
    { name: { n: 13, v: 0x474f5354323031325f74657374 }, id: { n: 13, v: 0x474f5354323031322d74657374 }, fam: 1, alias: false,
      p: 0x4531acd1fe0023c7550d267b6b2fee80922b14b2ffb90f04d4eb7c09b5d2d15df1d852741af4704a0458047e80e4546d35b8336fac224dd81664bbf528be6373, a: 0x7, b: 0x1cff0806a31116da29d8cfa54e57eb748bc5f377e49400fdd788b649eca1ac4361834013b2ad7322480a89ca58e0cf74bc9e540c2add6897fad0a3084f302adc,
      xG: 0x24d19cc64572ee30f396bf6ebbfd7a6c5213b3b3d7057cc825f91093a68cd762fd60611262cd838dc6b60aa7eee804e28bc849977fac33b4b530f1b120248a9a, yG: 0x2bb312a43bd2ce6e0d020613c857acddcfbf061e91e5f2c3f32447c259f39b2c83ab156d77f1496bf7eb3351e1ee4e43dc1a18b91b24640b6dbb92cb1add371e,
      n: 0x4531acd1fe0023c7550d267b6b2fee80922b14b2ffb90f04d4eb7c09b5d2d15da82f2d7ecb1dbac719905c5eecc423f1d86e25edbe23c595d644aaf187e6e6df, h: 1, size: 64, oid: List(1, 2, 643, 7, 1, 2, 1, 2, 0),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // GOSTmsg05975sw
    { name: { n: 14, v: 0x474f53546d736730353937357377 }, id: { n: 14, v: 0x474f53546d736730353937357377 }, fam: 1, alias: false,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7, a: 0xdc9203e514a721875485a529d2c722fb187bc8980eb866644de41c68e143064546e861c0e2c9edd92ade71f46fcf50ff2ad97f951fda9f2a2eb6546f39689bd3, b: 0xb4c4ee28cebc6c2c8ac12952cf37f16ac7efb6a9f69f4b57ffda2e4f0de5ade038cbc2fff719d2c18de0284b8bfef3b52b8cc7a5f5bf0a3c8d2319a5312557e1,
      xG: 0xe2e31edfc23de7bdebe241ce593ef5de2295b7a9cbaef021d385f7074cea043aa27272a7ae602bf2a7b9033db9ed3610c6fb85487eae97aac5bc7928c1950148, yG: 0xf5ce40d95b5eb899abbccff5911cb8577939804d6527378b8c108c3d2090ff9be18e2d33e3021ed2ef32d85822423b6304f726aa854bae07d0396e9a9addc40f,
      n: 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed, h: 4, size: 64, oid: List(),
      extras: List(-1, -1, -1, -1, -1, 3351951982485649274893506249551461531869841455148098344430890360930441007518362115868300084349221274418848205850841645514717116281909345935543464929272813) },
    // GOSTmsg05975te
    { name: { n: 14, v: 0x474f53546d736730353937357465 }, id: { n: 14, v: 0x474f53546d736730353937357465 }, fam: 3, alias: false,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7, a: 0x1, b: 0x9e4f5d8c017d8d9f13a5cf3cdf5bfe4dab402d54198e31ebde28a0621050439ca6b39e0a515c06b304e2ce43e79e369e91a0cfc2bc2a22b4ca302dbb33ee7550,
      xG: 0x12, yG: 0x469af79d1fb1f5e16b99592b77a01e2a0fdfb0d01794368d9a56117f7b38669522dd4b650cf789eebf068c5d139732f0905622c04b2baae7600303ee73001a3d,
      n: 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed, h: 4, size: 64, oid: List(),
      extras: List(192441418085781989925199569014682328247205359488084507105915794152876109793258387119302469510598075684996521756280994163909233457786642272556719980099876940564173937819419312650369259362534268220805935030287400121726045745725071491, -1, -1, -1, -1, 3351951982485649274893506249551461531869841455148098344430890360930441007518362115868300084349221274418848205850841645514717116281909345935543464929272813) },
    // M383
    { name: { n: 4, v: 0x4d333833 }, id: { n: 4, v: 0x6d333833 }, fam: 5, alias: false,
      p: 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff45, a: 0x1f82fe, b: 0x0,
      xG: 0xc, yG: 0x1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e,
      n: 0x10000000000000000000000000000000000000000000000006c79673ac36ba6e7a32576f7b1b249e46bbc225be9071d7, h: 8, size: 48, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // M511
    { name: { n: 4, v: 0x4d353131 }, id: { n: 4, v: 0x6d353131 }, fam: 5, alias: false,
      p: 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff45, a: 0x81806, b: 0x0,
      xG: 0x5, yG: 0x2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5,
      n: 0x100000000000000000000000000000000000000000000000000000000000000017b5feff30c7f5677ab2aeebd13779a2ac125042a6aa10bfa54c15bab76baf1b, h: 8, size: 64, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // NIST_P192
    { name: { n: 9, v: 0x4e4953545f50313932 }, id: { n: 8, v: 0x6e69737450313932 }, fam: 1, alias: true,
      p: 0xfffffffffffffffffffffffffffffffeffffffffffffffff, a: 0xfffffffffffffffffffffffffffffffefffffffffffffffc, b: 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
      xG: 0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, yG: 0x7192b95ffc8da78631011ed6b24cdd573f977a11e794811,
      n: 0xffffffffffffffffffffffff99def836146bc9b1b4d22831, h: 1, size: 24, oid: List(1, 2, 840, 10045, 3, 1, 1),
      extras: List(275585503993527016686210752207080241786546919125, 1191689908718309326471930603292001425137626342642504031845, -1, -1, -1, -1) })
  pure val ROWS4: List[Row] = List(
    // NIST_P224
    { name: { n: 9, v: 0x4e4953545f50323234 }, id: { n: 8, v: 0x6e69737450323234 }, fam: 1, alias: true,
      p: 0xffffffffffffffffffffffffffffffff000000000000000000000001, a: 0xfffffffffffffffffffffffffffffffefffffffffffffffffffffffe, b: 0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
      xG: 0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21, yG: 0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34,
      n: 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d, h: 1, size: 28, oid: List(1, 3, 132, 0, 33),
      extras: List(1081523794096538032233653362262598443316043615173, 9585649763196999776159690989286240671136085803543320687376622326267, -1, -1, -1, -1) },
    // NIST_P256
    { name: { n: 9, v: 0x4e4953545f50323536 }, id: { n: 8, v: 0x6e69737450323536 }, fam: 1, alias: true,
      p: 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, a: 0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc, b: 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
      xG: 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, yG: 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
      n: 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, h: 1, size: 32, oid: List(1, 2, 840, 10045, 3, 1, 7),
      extras: List(1122468115042657169822351801880191947498376363664, 57436011470200155964173534038266061871440426244159038175955947309464595790349, -1, -1, -1, -1) },
    // NIST_P384
    { name: { n: 9, v: 0x4e4953545f50333834 }, id: { n: 8, v: 0x6e69737450333834 }, fam: 1, alias: true,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff, a: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc, b: 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
      xG: 0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7, yG: 0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
      n: 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973, h: 1, size: 48, oid: List(1, 3, 132, 0, 34),
      extras: List(931760189820282162251563369853285143354633202803, 18749801867098873471821070971353888788690339003065439021780101954060871745882341382251168574711376101826101037376643, -1, -1, -1, -1) },
    // NIST_P521
    { name: { n: 9, v: 0x4e4953545f50353231 }, id: { n: 8, v: 0x6e69737450353231 }, fam: 1, alias: true,
      p: 0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, a: 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc, b: 0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
      xG: 0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66, yG: 0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
      n: 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409, h: 1, size: 66, oid: List(1, 3, 132, 0, 35),
      extras: List(1191005445398260649615595456645891205364046259386, 2420736670956961470587751833778383872272949280174637971106318223956010636355557333899035866342650378575221277268886182704643828850020061383251826928984446519, -1, -1, -1, -1) },
    // SECP_192r1
    { name: { n: 10, v: 0x534543505f3139327231 }, id: { n: 9, v: 0x736563703139327231 }, fam: 1, alias: false,
      p: 0xfffffffffffffffffffffffffffffffeffffffffffffffff, a: 0xfffffffffffffffffffffffffffffffefffffffffffffffc, b: 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
      xG: 0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, yG: 0x7192b95ffc8da78631011ed6b24cdd573f977a11e794811,
      n: 0xffffffffffffffffffffffff99def836146bc9b1b4d22831, h: 1, size: 24, oid: List(1, 2, 840, 10045, 3, 1, 1),
      extras: List(275585503993527016686210752207080241786546919125, 1191689908718309326471930603292001425137626342642504031845, -1, -1, -1, -1) },
    // SECP_224r1
    { name: { n: 10, v: 0x534543505f3232347231 }, id: { n: 9, v: 0x736563703232347231 }, fam: 1, alias: false,
      p: 0xffffffffffffffffffffffffffffffff000000000000000000000001, a: 0xfffffffffffffffffffffffffffffffefffffffffffffffffffffffe, b: 0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
      xG: 0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21, yG: 0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34,
      n: 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d, h: 1, size: 28, oid: List(1, 3, 132, 0, 33),
      extras: List(1081523794096538032233653362262598443316043615173, 9585649763196999776159690989286240671136085803543320687376622326267, -1, -1, -1, -1) },
    // SECP_256k1
    { name: { n: 10, v: 0x534543505f3235366b31 }, id: { n: 9, v: 0x736563703235366b31 }, fam: 2, alias: false,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f, a: 0x0, b: 0x7,
      xG: 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, yG: 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8,
      n: 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141, h: 1, size: 32, oid: List(1, 3, 132, 0, 10),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // SECP_256r1
    { name: { n: 10, v: 0x534543505f3235367231 }, id: { n: 9, v: 0x736563703235367231 }, fam: 1, alias: false,
      p: 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, a: 0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc, b: 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
      xG: 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, yG: 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
      n: 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, h: 1, size: 32, oid: List(1, 2, 840, 10045, 3, 1, 7),
      extras: List(1122468115042657169822351801880191947498376363664, 57436011470200155964173534038266061871440426244159038175955947309464595790349, -1, -1, -1, -1) })
  pure val ROWS5: List[Row] = List(
    // SECP_384r1
    { name: { n: 10, v: 0x534543505f3338347231 }, id: { n: 9, v: 0x736563703338347231 }, fam: 1, alias: false,
      p: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff, a: 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc, b: 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
      xG: 0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7, yG: 0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
      n: 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973, h: 1, size: 48, oid: List(1, 3, 132, 0, 34),
      extras: List(931760189820282162251563369853285143354633202803, 18749801867098873471821070971353888788690339003065439021780101954060871745882341382251168574711376101826101037376643, -1, -1, -1, -1) },
    // SECP_521r1
    { name: { n: 10, v: 0x534543505f3532317231 }, id: { n: 9, v: 0x736563703532317231 }, fam: 1, alias: false,
      p: 0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, a: 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc, b: 0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
      xG: 0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66, yG: 0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
      n: 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409, h: 1, size: 66, oid: List(1, 3, 132, 0, 35),
      extras: List(1191005445398260649615595456645891205364046259386, 2420736670956961470587751833778383872272949280174637971106318223956010636355557333899035866342650378575221277268886182704643828850020061383251826928984446519, -1, -1, -1, -1) },
    // SWP256CCAO01
    { name: { n: 12, v: 0x5357503235364343414f3031 }, id: { n: 13, v: 0x737770323536636363616f3031 }, fam: 1, alias: false,
      p: 0x8542d69e4c044f18e8b92435bf6ff7de457283915c45517d722edb8b08f1dfc3, a: 0x787968b4fa32c3fd2417842e73bbfeff2f3c848b6831d7e0ec65228b3937e498, b: 0x63e4c6d3b23b0c849cf84241484bfe48f61d59a5b16ba06e6e12d1da27c5249a,
      xG: 0x421debd61b62eab6746434ebc3cc315e32220b3badd50bdc4c4e6c147fedd43d, yG: 0x680512bcbb42c07d47349d2153b70c4e5d7fdfcbfa36ea1a85841b9e46e09a2,
      n: 0x8542d69e4c044f18e8b92435bf6ff7dd297720630485628d5ae74ee7c32e79b7, h: 1, size: 32, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // SWP256SM2
    { name: { n: 9, v: 0x535750323536534d32 }, id: { n: 9, v: 0x737770323536736d32 }, fam: 1, alias: false,
      p: 0xfffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff, a: 0xfffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc, b: 0x28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93,
      xG: 0x32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7, yG: 0xbc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0,
      n: 0xfffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123, h: 1, size: 32, oid: List(),
      extras: List(-1, -1, -1, -1, -1, -1) },
    // WAPI
    { name: { n: 4, v: 0x57415049 }, id: { n: 4, v: 0x77617069 }, fam: 1, alias: false,
      p: 0xbdb6f4fe3e8b1d9e0da8c0d46f4c318cefe4afe3b6b8551f, a: 0xbb8e5e8fbc115e139fe6a814fe48aaa6f0ada1aa5df91985, b: 0x1854bebdc31b21b7aefc80ab0ecd10d5b1b3308e6dbf11c1,
      xG: 0x4ad5f7048de709ad51236de65e4d4b482c836dc6e4106640, yG: 0x2bb3a02d4aaadacae24817a4ca3a1b014b5270432db27d2,
      n: 0xbdb6f4fe3e8b1d9e0da8c0d40fc962195dfae76f56564677, h: 1, size: 24, oid: List(1, 2, 156, 1001, 5, 40, 1),
      extras: List(-1, -1, -1, -1, -1, -1) })
  pure val ROWS: List[Row] = ROWS0.concat(ROWS1).concat(ROWS2).concat(ROWS3).concat(ROWS4).concat(ROWS5)
  pure val ROWAT: Oct -> Row = ROWS.foldl(Map(), (m, r) => m.put(r.name, r))
}
