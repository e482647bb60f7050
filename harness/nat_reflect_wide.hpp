// Structs with long member lists (macro limits), each with its own table of names and addresses.
#pragma once
struct wide33 {
    uint8_t m0{};
    uint64_t m1{};
    uint32_t m2{};
    uint16_t m3{};
    uint8_t m4{};
    uint8_t m5{};
    uint64_t m6{};
    uint32_t m7{};
    uint16_t m8{};
    uint8_t m9{};
    uint8_t m10{};
    uint64_t m11{};
    uint32_t m12{};
    uint16_t m13{};
    uint8_t m14{};
    uint8_t m15{};
    uint64_t m16{};
    uint32_t m17{};
    uint16_t m18{};
    uint8_t m19{};
    uint8_t m20{};
    uint64_t m21{};
    uint32_t m22{};
    uint16_t m23{};
    uint8_t m24{};
    uint8_t m25{};
    uint64_t m26{};
    uint32_t m27{};
    uint16_t m28{};
    uint8_t m29{};
    uint8_t m30{};
    uint64_t m31{};
    uint32_t m32{};
};
EOSIO_REFLECT(wide33, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32)
inline table expected(wide33& o) {
    table t;
    add(t, "m0", &o.m0, sizeof(o.m0));
    add(t, "m1", &o.m1, sizeof(o.m1));
    add(t, "m2", &o.m2, sizeof(o.m2));
    add(t, "m3", &o.m3, sizeof(o.m3));
    add(t, "m4", &o.m4, sizeof(o.m4));
    add(t, "m5", &o.m5, sizeof(o.m5));
    add(t, "m6", &o.m6, sizeof(o.m6));
    add(t, "m7", &o.m7, sizeof(o.m7));
    add(t, "m8", &o.m8, sizeof(o.m8));
    add(t, "m9", &o.m9, sizeof(o.m9));
    add(t, "m10", &o.m10, sizeof(o.m10));
    add(t, "m11", &o.m11, sizeof(o.m11));
    add(t, "m12", &o.m12, sizeof(o.m12));
    add(t, "m13", &o.m13, sizeof(o.m13));
    add(t, "m14", &o.m14, sizeof(o.m14));
    add(t, "m15", &o.m15, sizeof(o.m15));
    add(t, "m16", &o.m16, sizeof(o.m16));
    add(t, "m17", &o.m17, sizeof(o.m17));
    add(t, "m18", &o.m18, sizeof(o.m18));
    add(t, "m19", &o.m19, sizeof(o.m19));
    add(t, "m20", &o.m20, sizeof(o.m20));
    add(t, "m21", &o.m21, sizeof(o.m21));
    add(t, "m22", &o.m22, sizeof(o.m22));
    add(t, "m23", &o.m23, sizeof(o.m23));
    add(t, "m24", &o.m24, sizeof(o.m24));
    add(t, "m25", &o.m25, sizeof(o.m25));
    add(t, "m26", &o.m26, sizeof(o.m26));
    add(t, "m27", &o.m27, sizeof(o.m27));
    add(t, "m28", &o.m28, sizeof(o.m28));
    add(t, "m29", &o.m29, sizeof(o.m29));
    add(t, "m30", &o.m30, sizeof(o.m30));
    add(t, "m31", &o.m31, sizeof(o.m31));
    add(t, "m32", &o.m32, sizeof(o.m32));
    return t;
}
struct wide120 {
    uint8_t m0{};
    uint64_t m1{};
    uint32_t m2{};
    uint16_t m3{};
    uint8_t m4{};
    uint8_t m5{};
    uint64_t m6{};
    uint32_t m7{};
    uint16_t m8{};
    uint8_t m9{};
    uint8_t m10{};
    uint64_t m11{};
    uint32_t m12{};
    uint16_t m13{};
    uint8_t m14{};
    uint8_t m15{};
    uint64_t m16{};
    uint32_t m17{};
    uint16_t m18{};
    uint8_t m19{};
    uint8_t m20{};
    uint64_t m21{};
    uint32_t m22{};
    uint16_t m23{};
    uint8_t m24{};
    uint8_t m25{};
    uint64_t m26{};
    uint32_t m27{};
    uint16_t m28{};
    uint8_t m29{};
    uint8_t m30{};
    uint64_t m31{};
    uint32_t m32{};
    uint16_t m33{};
    uint8_t m34{};
    uint8_t m35{};
    uint64_t m36{};
    uint32_t m37{};
    uint16_t m38{};
    uint8_t m39{};
    uint8_t m40{};
    uint64_t m41{};
    uint32_t m42{};
    uint16_t m43{};
    uint8_t m44{};
    uint8_t m45{};
    uint64_t m46{};
    uint32_t m47{};
    uint16_t m48{};
    uint8_t m49{};
    uint8_t m50{};
    uint64_t m51{};
    uint32_t m52{};
    uint16_t m53{};
    uint8_t m54{};
    uint8_t m55{};
    uint64_t m56{};
    uint32_t m57{};
    uint16_t m58{};
    uint8_t m59{};
    uint8_t m60{};
    uint64_t m61{};
    uint32_t m62{};
    uint16_t m63{};
    uint8_t m64{};
    uint8_t m65{};
    uint64_t m66{};
    uint32_t m67{};
    uint16_t m68{};
    uint8_t m69{};
    uint8_t m70{};
    uint64_t m71{};
    uint32_t m72{};
    uint16_t m73{};
    uint8_t m74{};
    uint8_t m75{};
    uint64_t m76{};
    uint32_t m77{};
    uint16_t m78{};
    uint8_t m79{};
    uint8_t m80{};
    uint64_t m81{};
    uint32_t m82{};
    uint16_t m83{};
    uint8_t m84{};
    uint8_t m85{};
    uint64_t m86{};
    uint32_t m87{};
    uint16_t m88{};
    uint8_t m89{};
    uint8_t m90{};
    uint64_t m91{};
    uint32_t m92{};
    uint16_t m93{};
    uint8_t m94{};
    uint8_t m95{};
    uint64_t m96{};
    uint32_t m97{};
    uint16_t m98{};
    uint8_t m99{};
    uint8_t m100{};
    uint64_t m101{};
    uint32_t m102{};
    uint16_t m103{};
    uint8_t m104{};
    uint8_t m105{};
    uint64_t m106{};
    uint32_t m107{};
    uint16_t m108{};
    uint8_t m109{};
    uint8_t m110{};
    uint64_t m111{};
    uint32_t m112{};
    uint16_t m113{};
    uint8_t m114{};
    uint8_t m115{};
    uint64_t m116{};
    uint32_t m117{};
    uint16_t m118{};
    uint8_t m119{};
};
EOSIO_REFLECT(wide120, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84, m85, m86, m87, m88, m89, m90, m91, m92, m93, m94, m95, m96, m97, m98, m99, m100, m101, m102, m103, m104, m105, m106, m107, m108, m109, m110, m111, m112, m113, m114, m115, m116, m117, m118, m119)
inline table expected(wide120& o) {
    table t;
    add(t, "m0", &o.m0, sizeof(o.m0));
    add(t, "m1", &o.m1, sizeof(o.m1));
    add(t, "m2", &o.m2, sizeof(o.m2));
    add(t, "m3", &o.m3, sizeof(o.m3));
    add(t, "m4", &o.m4, sizeof(o.m4));
    add(t, "m5", &o.m5, sizeof(o.m5));
    add(t, "m6", &o.m6, sizeof(o.m6));
    add(t, "m7", &o.m7, sizeof(o.m7));
    add(t, "m8", &o.m8, sizeof(o.m8));
    add(t, "m9", &o.m9, sizeof(o.m9));
    add(t, "m10", &o.m10, sizeof(o.m10));
    add(t, "m11", &o.m11, sizeof(o.m11));
    add(t, "m12", &o.m12, sizeof(o.m12));
    add(t, "m13", &o.m13, sizeof(o.m13));
    add(t, "m14", &o.m14, sizeof(o.m14));
    add(t, "m15", &o.m15, sizeof(o.m15));
    add(t, "m16", &o.m16, sizeof(o.m16));
    add(t, "m17", &o.m17, sizeof(o.m17));
    add(t, "m18", &o.m18, sizeof(o.m18));
    add(t, "m19", &o.m19, sizeof(o.m19));
    add(t, "m20", &o.m20, sizeof(o.m20));
    add(t, "m21", &o.m21, sizeof(o.m21));
    add(t, "m22", &o.m22, sizeof(o.m22));
    add(t, "m23", &o.m23, sizeof(o.m23));
    add(t, "m24", &o.m24, sizeof(o.m24));
    add(t, "m25", &o.m25, sizeof(o.m25));
    add(t, "m26", &o.m26, sizeof(o.m26));
    add(t, "m27", &o.m27, sizeof(o.m27));
    add(t, "m28", &o.m28, sizeof(o.m28));
    add(t, "m29", &o.m29, sizeof(o.m29));
    add(t, "m30", &o.m30, sizeof(o.m30));
    add(t, "m31", &o.m31, sizeof(o.m31));
    add(t, "m32", &o.m32, sizeof(o.m32));
    add(t, "m33", &o.m33, sizeof(o.m33));
    add(t, "m34", &o.m34, sizeof(o.m34));
    add(t, "m35", &o.m35, sizeof(o.m35));
    add(t, "m36", &o.m36, sizeof(o.m36));
    add(t, "m37", &o.m37, sizeof(o.m37));
    add(t, "m38", &o.m38, sizeof(o.m38));
    add(t, "m39", &o.m39, sizeof(o.m39));
    add(t, "m40", &o.m40, sizeof(o.m40));
    add(t, "m41", &o.m41, sizeof(o.m41));
    add(t, "m42", &o.m42, sizeof(o.m42));
    add(t, "m43", &o.m43, sizeof(o.m43));
    add(t, "m44", &o.m44, sizeof(o.m44));
    add(t, "m45", &o.m45, sizeof(o.m45));
    add(t, "m46", &o.m46, sizeof(o.m46));
    add(t, "m47", &o.m47, sizeof(o.m47));
    add(t, "m48", &o.m48, sizeof(o.m48));
    add(t, "m49", &o.m49, sizeof(o.m49));
    add(t, "m50", &o.m50, sizeof(o.m50));
    add(t, "m51", &o.m51, sizeof(o.m51));
    add(t, "m52", &o.m52, sizeof(o.m52));
    add(t, "m53", &o.m53, sizeof(o.m53));
    add(t, "m54", &o.m54, sizeof(o.m54));
    add(t, "m55", &o.m55, sizeof(o.m55));
    add(t, "m56", &o.m56, sizeof(o.m56));
    add(t, "m57", &o.m57, sizeof(o.m57));
    add(t, "m58", &o.m58, sizeof(o.m58));
    add(t, "m59", &o.m59, sizeof(o.m59));
    add(t, "m60", &o.m60, sizeof(o.m60));
    add(t, "m61", &o.m61, sizeof(o.m61));
    add(t, "m62", &o.m62, sizeof(o.m62));
    add(t, "m63", &o.m63, sizeof(o.m63));
    add(t, "m64", &o.m64, sizeof(o.m64));
    add(t, "m65", &o.m65, sizeof(o.m65));
    add(t, "m66", &o.m66, sizeof(o.m66));
    add(t, "m67", &o.m67, sizeof(o.m67));
    add(t, "m68", &o.m68, sizeof(o.m68));
    add(t, "m69", &o.m69, sizeof(o.m69));
    add(t, "m70", &o.m70, sizeof(o.m70));
    add(t, "m71", &o.m71, sizeof(o.m71));
    add(t, "m72", &o.m72, sizeof(o.m72));
    add(t, "m73", &o.m73, sizeof(o.m73));
    add(t, "m74", &o.m74, sizeof(o.m74));
    add(t, "m75", &o.m75, sizeof(o.m75));
    add(t, "m76", &o.m76, sizeof(o.m76));
    add(t, "m77", &o.m77, sizeof(o.m77));
    add(t, "m78", &o.m78, sizeof(o.m78));
    add(t, "m79", &o.m79, sizeof(o.m79));
    add(t, "m80", &o.m80, sizeof(o.m80));
    add(t, "m81", &o.m81, sizeof(o.m81));
    add(t, "m82", &o.m82, sizeof(o.m82));
    add(t, "m83", &o.m83, sizeof(o.m83));
    add(t, "m84", &o.m84, sizeof(o.m84));
    add(t, "m85", &o.m85, sizeof(o.m85));
    add(t, "m86", &o.m86, sizeof(o.m86));
    add(t, "m87", &o.m87, sizeof(o.m87));
    add(t, "m88", &o.m88, sizeof(o.m88));
    add(t, "m89", &o.m89, sizeof(o.m89));
    add(t, "m90", &o.m90, sizeof(o.m90));
    add(t, "m91", &o.m91, sizeof(o.m91));
    add(t, "m92", &o.m92, sizeof(o.m92));
    add(t, "m93", &o.m93, sizeof(o.m93));
    add(t, "m94", &o.m94, sizeof(o.m94));
    add(t, "m95", &o.m95, sizeof(o.m95));
    add(t, "m96", &o.m96, sizeof(o.m96));
    add(t, "m97", &o.m97, sizeof(o.m97));
    add(t, "m98", &o.m98, sizeof(o.m98));
    add(t, "m99", &o.m99, sizeof(o.m99));
    add(t, "m100", &o.m100, sizeof(o.m100));
    add(t, "m101", &o.m101, sizeof(o.m101));
    add(t, "m102", &o.m102, sizeof(o.m102));
    add(t, "m103", &o.m103, sizeof(o.m103));
    add(t, "m104", &o.m104, sizeof(o.m104));
    add(t, "m105", &o.m105, sizeof(o.m105));
    add(t, "m106", &o.m106, sizeof(o.m106));
    add(t, "m107", &o.m107, sizeof(o.m107));
    add(t, "m108", &o.m108, sizeof(o.m108));
    add(t, "m109", &o.m109, sizeof(o.m109));
    add(t, "m110", &o.m110, sizeof(o.m110));
    add(t, "m111", &o.m111, sizeof(o.m111));
    add(t, "m112", &o.m112, sizeof(o.m112));
    add(t, "m113", &o.m113, sizeof(o.m113));
    add(t, "m114", &o.m114, sizeof(o.m114));
    add(t, "m115", &o.m115, sizeof(o.m115));
    add(t, "m116", &o.m116, sizeof(o.m116));
    add(t, "m117", &o.m117, sizeof(o.m117));
    add(t, "m118", &o.m118, sizeof(o.m118));
    add(t, "m119", &o.m119, sizeof(o.m119));
    return t;
}
struct wide280 {
    uint8_t m0{};
    uint64_t m1{};
    uint32_t m2{};
    uint16_t m3{};
    uint8_t m4{};
    uint8_t m5{};
    uint64_t m6{};
    uint32_t m7{};
    uint16_t m8{};
    uint8_t m9{};
    uint8_t m10{};
    uint64_t m11{};
    uint32_t m12{};
    uint16_t m13{};
    uint8_t m14{};
    uint8_t m15{};
    uint64_t m16{};
    uint32_t m17{};
    uint16_t m18{};
    uint8_t m19{};
    uint8_t m20{};
    uint64_t m21{};
    uint32_t m22{};
    uint16_t m23{};
    uint8_t m24{};
    uint8_t m25{};
    uint64_t m26{};
    uint32_t m27{};
    uint16_t m28{};
    uint8_t m29{};
    uint8_t m30{};
    uint64_t m31{};
    uint32_t m32{};
    uint16_t m33{};
    uint8_t m34{};
    uint8_t m35{};
    uint64_t m36{};
    uint32_t m37{};
    uint16_t m38{};
    uint8_t m39{};
    uint8_t m40{};
    uint64_t m41{};
    uint32_t m42{};
    uint16_t m43{};
    uint8_t m44{};
    uint8_t m45{};
    uint64_t m46{};
    uint32_t m47{};
    uint16_t m48{};
    uint8_t m49{};
    uint8_t m50{};
    uint64_t m51{};
    uint32_t m52{};
    uint16_t m53{};
    uint8_t m54{};
    uint8_t m55{};
    uint64_t m56{};
    uint32_t m57{};
    uint16_t m58{};
    uint8_t m59{};
    uint8_t m60{};
    uint64_t m61{};
    uint32_t m62{};
    uint16_t m63{};
    uint8_t m64{};
    uint8_t m65{};
    uint64_t m66{};
    uint32_t m67{};
    uint16_t m68{};
    uint8_t m69{};
    uint8_t m70{};
    uint64_t m71{};
    uint32_t m72{};
    uint16_t m73{};
    uint8_t m74{};
    uint8_t m75{};
    uint64_t m76{};
    uint32_t m77{};
    uint16_t m78{};
    uint8_t m79{};
    uint8_t m80{};
    uint64_t m81{};
    uint32_t m82{};
    uint16_t m83{};
    uint8_t m84{};
    uint8_t m85{};
    uint64_t m86{};
    uint32_t m87{};
    uint16_t m88{};
    uint8_t m89{};
    uint8_t m90{};
    uint64_t m91{};
    uint32_t m92{};
    uint16_t m93{};
    uint8_t m94{};
    uint8_t m95{};
    uint64_t m96{};
    uint32_t m97{};
    uint16_t m98{};
    uint8_t m99{};
    uint8_t m100{};
    uint64_t m101{};
    uint32_t m102{};
    uint16_t m103{};
    uint8_t m104{};
    uint8_t m105{};
    uint64_t m106{};
    uint32_t m107{};
    uint16_t m108{};
    uint8_t m109{};
    uint8_t m110{};
    uint64_t m111{};
    uint32_t m112{};
    uint16_t m113{};
    uint8_t m114{};
    uint8_t m115{};
    uint64_t m116{};
    uint32_t m117{};
    uint16_t m118{};
    uint8_t m119{};
    uint8_t m120{};
    uint64_t m121{};
    uint32_t m122{};
    uint16_t m123{};
    uint8_t m124{};
    uint8_t m125{};
    uint64_t m126{};
    uint32_t m127{};
    uint16_t m128{};
    uint8_t m129{};
    uint8_t m130{};
    uint64_t m131{};
    uint32_t m132{};
    uint16_t m133{};
    uint8_t m134{};
    uint8_t m135{};
    uint64_t m136{};
    uint32_t m137{};
    uint16_t m138{};
    uint8_t m139{};
    uint8_t m140{};
    uint64_t m141{};
    uint32_t m142{};
    uint16_t m143{};
    uint8_t m144{};
    uint8_t m145{};
    uint64_t m146{};
    uint32_t m147{};
    uint16_t m148{};
    uint8_t m149{};
    uint8_t m150{};
    uint64_t m151{};
    uint32_t m152{};
    uint16_t m153{};
    uint8_t m154{};
    uint8_t m155{};
    uint64_t m156{};
    uint32_t m157{};
    uint16_t m158{};
    uint8_t m159{};
    uint8_t m160{};
    uint64_t m161{};
    uint32_t m162{};
    uint16_t m163{};
    uint8_t m164{};
    uint8_t m165{};
    uint64_t m166{};
    uint32_t m167{};
    uint16_t m168{};
    uint8_t m169{};
    uint8_t m170{};
    uint64_t m171{};
    uint32_t m172{};
    uint16_t m173{};
    uint8_t m174{};
    uint8_t m175{};
    uint64_t m176{};
    uint32_t m177{};
    uint16_t m178{};
    uint8_t m179{};
    uint8_t m180{};
    uint64_t m181{};
    uint32_t m182{};
    uint16_t m183{};
    uint8_t m184{};
    uint8_t m185{};
    uint64_t m186{};
    uint32_t m187{};
    uint16_t m188{};
    uint8_t m189{};
    uint8_t m190{};
    uint64_t m191{};
    uint32_t m192{};
    uint16_t m193{};
    uint8_t m194{};
    uint8_t m195{};
    uint64_t m196{};
    uint32_t m197{};
    uint16_t m198{};
    uint8_t m199{};
    uint8_t m200{};
    uint64_t m201{};
    uint32_t m202{};
    uint16_t m203{};
    uint8_t m204{};
    uint8_t m205{};
    uint64_t m206{};
    uint32_t m207{};
    uint16_t m208{};
    uint8_t m209{};
    uint8_t m210{};
    uint64_t m211{};
    uint32_t m212{};
    uint16_t m213{};
    uint8_t m214{};
    uint8_t m215{};
    uint64_t m216{};
    uint32_t m217{};
    uint16_t m218{};
    uint8_t m219{};
    uint8_t m220{};
    uint64_t m221{};
    uint32_t m222{};
    uint16_t m223{};
    uint8_t m224{};
    uint8_t m225{};
    uint64_t m226{};
    uint32_t m227{};
    uint16_t m228{};
    uint8_t m229{};
    uint8_t m230{};
    uint64_t m231{};
    uint32_t m232{};
    uint16_t m233{};
    uint8_t m234{};
    uint8_t m235{};
    uint64_t m236{};
    uint32_t m237{};
    uint16_t m238{};
    uint8_t m239{};
    uint8_t m240{};
    uint64_t m241{};
    uint32_t m242{};
    uint16_t m243{};
    uint8_t m244{};
    uint8_t m245{};
    uint64_t m246{};
    uint32_t m247{};
    uint16_t m248{};
    uint8_t m249{};
    uint8_t m250{};
    uint64_t m251{};
    uint32_t m252{};
    uint16_t m253{};
    uint8_t m254{};
    uint8_t m255{};
    uint64_t m256{};
    uint32_t m257{};
    uint16_t m258{};
    uint8_t m259{};
    uint8_t m260{};
    uint64_t m261{};
    uint32_t m262{};
    uint16_t m263{};
    uint8_t m264{};
    uint8_t m265{};
    uint64_t m266{};
    uint32_t m267{};
    uint16_t m268{};
    uint8_t m269{};
    uint8_t m270{};
    uint64_t m271{};
    uint32_t m272{};
    uint16_t m273{};
    uint8_t m274{};
    uint8_t m275{};
    uint64_t m276{};
    uint32_t m277{};
    uint16_t m278{};
    uint8_t m279{};
};
EOSIO_REFLECT(wide280, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84, m85, m86, m87, m88, m89, m90, m91, m92, m93, m94, m95, m96, m97, m98, m99, m100, m101, m102, m103, m104, m105, m106, m107, m108, m109, m110, m111, m112, m113, m114, m115, m116, m117, m118, m119, m120, m121, m122, m123, m124, m125, m126, m127, m128, m129, m130, m131, m132, m133, m134, m135, m136, m137, m138, m139, m140, m141, m142, m143, m144, m145, m146, m147, m148, m149, m150, m151, m152, m153, m154, m155, m156, m157, m158, m159, m160, m161, m162, m163, m164, m165, m166, m167, m168, m169, m170, m171, m172, m173, m174, m175, m176, m177, m178, m179, m180, m181, m182, m183, m184, m185, m186, m187, m188, m189, m190, m191, m192, m193, m194, m195, m196, m197, m198, m199, m200, m201, m202, m203, m204, m205, m206, m207, m208, m209, m210, m211, m212, m213, m214, m215, m216, m217, m218, m219, m220, m221, m222, m223, m224, m225, m226, m227, m228, m229, m230, m231, m232, m233, m234, m235, m236, m237, m238, m239, m240, m241, m242, m243, m244, m245, m246, m247, m248, m249, m250, m251, m252, m253, m254, m255, m256, m257, m258, m259, m260, m261, m262, m263, m264, m265, m266, m267, m268, m269, m270, m271, m272, m273, m274, m275, m276, m277, m278, m279)
inline table expected(wide280& o) {
    table t;
    add(t, "m0", &o.m0, sizeof(o.m0));
    add(t, "m1", &o.m1, sizeof(o.m1));
    add(t, "m2", &o.m2, sizeof(o.m2));
    add(t, "m3", &o.m3, sizeof(o.m3));
    add(t, "m4", &o.m4, sizeof(o.m4));
    add(t, "m5", &o.m5, sizeof(o.m5));
    add(t, "m6", &o.m6, sizeof(o.m6));
    add(t, "m7", &o.m7, sizeof(o.m7));
    add(t, "m8", &o.m8, sizeof(o.m8));
    add(t, "m9", &o.m9, sizeof(o.m9));
    add(t, "m10", &o.m10, sizeof(o.m10));
    add(t, "m11", &o.m11, sizeof(o.m11));
    add(t, "m12", &o.m12, sizeof(o.m12));
    add(t, "m13", &o.m13, sizeof(o.m13));
    add(t, "m14", &o.m14, sizeof(o.m14));
    add(t, "m15", &o.m15, sizeof(o.m15));
    add(t, "m16", &o.m16, sizeof(o.m16));
    add(t, "m17", &o.m17, sizeof(o.m17));
    add(t, "m18", &o.m18, sizeof(o.m18));
    add(t, "m19", &o.m19, sizeof(o.m19));
    add(t, "m20", &o.m20, sizeof(o.m20));
    add(t, "m21", &o.m21, sizeof(o.m21));
    add(t, "m22", &o.m22, sizeof(o.m22));
    add(t, "m23", &o.m23, sizeof(o.m23));
    add(t, "m24", &o.m24, sizeof(o.m24));
    add(t, "m25", &o.m25, sizeof(o.m25));
    add(t, "m26", &o.m26, sizeof(o.m26));
    add(t, "m27", &o.m27, sizeof(o.m27));
    add(t, "m28", &o.m28, sizeof(o.m28));
    add(t, "m29", &o.m29, sizeof(o.m29));
    add(t, "m30", &o.m30, sizeof(o.m30));
    add(t, "m31", &o.m31, sizeof(o.m31));
    add(t, "m32", &o.m32, sizeof(o.m32));
    add(t, "m33", &o.m33, sizeof(o.m33));
    add(t, "m34", &o.m34, sizeof(o.m34));
    add(t, "m35", &o.m35, sizeof(o.m35));
    add(t, "m36", &o.m36, sizeof(o.m36));
    add(t, "m37", &o.m37, sizeof(o.m37));
    add(t, "m38", &o.m38, sizeof(o.m38));
    add(t, "m39", &o.m39, sizeof(o.m39));
    add(t, "m40", &o.m40, sizeof(o.m40));
    add(t, "m41", &o.m41, sizeof(o.m41));
    add(t, "m42", &o.m42, sizeof(o.m42));
    add(t, "m43", &o.m43, sizeof(o.m43));
    add(t, "m44", &o.m44, sizeof(o.m44));
    add(t, "m45", &o.m45, sizeof(o.m45));
    add(t, "m46", &o.m46, sizeof(o.m46));
    add(t, "m47", &o.m47, sizeof(o.m47));
    add(t, "m48", &o.m48, sizeof(o.m48));
    add(t, "m49", &o.m49, sizeof(o.m49));
    add(t, "m50", &o.m50, sizeof(o.m50));
    add(t, "m51", &o.m51, sizeof(o.m51));
    add(t, "m52", &o.m52, sizeof(o.m52));
    add(t, "m53", &o.m53, sizeof(o.m53));
    add(t, "m54", &o.m54, sizeof(o.m54));
    add(t, "m55", &o.m55, sizeof(o.m55));
    add(t, "m56", &o.m56, sizeof(o.m56));
    add(t, "m57", &o.m57, sizeof(o.m57));
    add(t, "m58", &o.m58, sizeof(o.m58));
    add(t, "m59", &o.m59, sizeof(o.m59));
    add(t, "m60", &o.m60, sizeof(o.m60));
    add(t, "m61", &o.m61, sizeof(o.m61));
    add(t, "m62", &o.m62, sizeof(o.m62));
    add(t, "m63", &o.m63, sizeof(o.m63));
    add(t, "m64", &o.m64, sizeof(o.m64));
    add(t, "m65", &o.m65, sizeof(o.m65));
    add(t, "m66", &o.m66, sizeof(o.m66));
    add(t, "m67", &o.m67, sizeof(o.m67));
    add(t, "m68", &o.m68, sizeof(o.m68));
    add(t, "m69", &o.m69, sizeof(o.m69));
    add(t, "m70", &o.m70, sizeof(o.m70));
    add(t, "m71", &o.m71, sizeof(o.m71));
    add(t, "m72", &o.m72, sizeof(o.m72));
    add(t, "m73", &o.m73, sizeof(o.m73));
    add(t, "m74", &o.m74, sizeof(o.m74));
    add(t, "m75", &o.m75, sizeof(o.m75));
    add(t, "m76", &o.m76, sizeof(o.m76));
    add(t, "m77", &o.m77, sizeof(o.m77));
    add(t, "m78", &o.m78, sizeof(o.m78));
    add(t, "m79", &o.m79, sizeof(o.m79));
    add(t, "m80", &o.m80, sizeof(o.m80));
    add(t, "m81", &o.m81, sizeof(o.m81));
    add(t, "m82", &o.m82, sizeof(o.m82));
    add(t, "m83", &o.m83, sizeof(o.m83));
    add(t, "m84", &o.m84, sizeof(o.m84));
    add(t, "m85", &o.m85, sizeof(o.m85));
    add(t, "m86", &o.m86, sizeof(o.m86));
    add(t, "m87", &o.m87, sizeof(o.m87));
    add(t, "m88", &o.m88, sizeof(o.m88));
    add(t, "m89", &o.m89, sizeof(o.m89));
    add(t, "m90", &o.m90, sizeof(o.m90));
    add(t, "m91", &o.m91, sizeof(o.m91));
    add(t, "m92", &o.m92, sizeof(o.m92));
    add(t, "m93", &o.m93, sizeof(o.m93));
    add(t, "m94", &o.m94, sizeof(o.m94));
    add(t, "m95", &o.m95, sizeof(o.m95));
    add(t, "m96", &o.m96, sizeof(o.m96));
    add(t, "m97", &o.m97, sizeof(o.m97));
    add(t, "m98", &o.m98, sizeof(o.m98));
    add(t, "m99", &o.m99, sizeof(o.m99));
    add(t, "m100", &o.m100, sizeof(o.m100));
    add(t, "m101", &o.m101, sizeof(o.m101));
    add(t, "m102", &o.m102, sizeof(o.m102));
    add(t, "m103", &o.m103, sizeof(o.m103));
    add(t, "m104", &o.m104, sizeof(o.m104));
    add(t, "m105", &o.m105, sizeof(o.m105));
    add(t, "m106", &o.m106, sizeof(o.m106));
    add(t, "m107", &o.m107, sizeof(o.m107));
    add(t, "m108", &o.m108, sizeof(o.m108));
    add(t, "m109", &o.m109, sizeof(o.m109));
    add(t, "m110", &o.m110, sizeof(o.m110));
    add(t, "m111", &o.m111, sizeof(o.m111));
    add(t, "m112", &o.m112, sizeof(o.m112));
    add(t, "m113", &o.m113, sizeof(o.m113));
    add(t, "m114", &o.m114, sizeof(o.m114));
    add(t, "m115", &o.m115, sizeof(o.m115));
    add(t, "m116", &o.m116, sizeof(o.m116));
    add(t, "m117", &o.m117, sizeof(o.m117));
    add(t, "m118", &o.m118, sizeof(o.m118));
    add(t, "m119", &o.m119, sizeof(o.m119));
    add(t, "m120", &o.m120, sizeof(o.m120));
    add(t, "m121", &o.m121, sizeof(o.m121));
    add(t, "m122", &o.m122, sizeof(o.m122));
    add(t, "m123", &o.m123, sizeof(o.m123));
    add(t, "m124", &o.m124, sizeof(o.m124));
    add(t, "m125", &o.m125, sizeof(o.m125));
    add(t, "m126", &o.m126, sizeof(o.m126));
    add(t, "m127", &o.m127, sizeof(o.m127));
    add(t, "m128", &o.m128, sizeof(o.m128));
    add(t, "m129", &o.m129, sizeof(o.m129));
    add(t, "m130", &o.m130, sizeof(o.m130));
    add(t, "m131", &o.m131, sizeof(o.m131));
    add(t, "m132", &o.m132, sizeof(o.m132));
    add(t, "m133", &o.m133, sizeof(o.m133));
    add(t, "m134", &o.m134, sizeof(o.m134));
    add(t, "m135", &o.m135, sizeof(o.m135));
    add(t, "m136", &o.m136, sizeof(o.m136));
    add(t, "m137", &o.m137, sizeof(o.m137));
    add(t, "m138", &o.m138, sizeof(o.m138));
    add(t, "m139", &o.m139, sizeof(o.m139));
    add(t, "m140", &o.m140, sizeof(o.m140));
    add(t, "m141", &o.m141, sizeof(o.m141));
    add(t, "m142", &o.m142, sizeof(o.m142));
    add(t, "m143", &o.m143, sizeof(o.m143));
    add(t, "m144", &o.m144, sizeof(o.m144));
    add(t, "m145", &o.m145, sizeof(o.m145));
    add(t, "m146", &o.m146, sizeof(o.m146));
    add(t, "m147", &o.m147, sizeof(o.m147));
    add(t, "m148", &o.m148, sizeof(o.m148));
    add(t, "m149", &o.m149, sizeof(o.m149));
    add(t, "m150", &o.m150, sizeof(o.m150));
    add(t, "m151", &o.m151, sizeof(o.m151));
    add(t, "m152", &o.m152, sizeof(o.m152));
    add(t, "m153", &o.m153, sizeof(o.m153));
    add(t, "m154", &o.m154, sizeof(o.m154));
    add(t, "m155", &o.m155, sizeof(o.m155));
    add(t, "m156", &o.m156, sizeof(o.m156));
    add(t, "m157", &o.m157, sizeof(o.m157));
    add(t, "m158", &o.m158, sizeof(o.m158));
    add(t, "m159", &o.m159, sizeof(o.m159));
    add(t, "m160", &o.m160, sizeof(o.m160));
    add(t, "m161", &o.m161, sizeof(o.m161));
    add(t, "m162", &o.m162, sizeof(o.m162));
    add(t, "m163", &o.m163, sizeof(o.m163));
    add(t, "m164", &o.m164, sizeof(o.m164));
    add(t, "m165", &o.m165, sizeof(o.m165));
    add(t, "m166", &o.m166, sizeof(o.m166));
    add(t, "m167", &o.m167, sizeof(o.m167));
    add(t, "m168", &o.m168, sizeof(o.m168));
    add(t, "m169", &o.m169, sizeof(o.m169));
    add(t, "m170", &o.m170, sizeof(o.m170));
    add(t, "m171", &o.m171, sizeof(o.m171));
    add(t, "m172", &o.m172, sizeof(o.m172));
    add(t, "m173", &o.m173, sizeof(o.m173));
    add(t, "m174", &o.m174, sizeof(o.m174));
    add(t, "m175", &o.m175, sizeof(o.m175));
    add(t, "m176", &o.m176, sizeof(o.m176));
    add(t, "m177", &o.m177, sizeof(o.m177));
    add(t, "m178", &o.m178, sizeof(o.m178));
    add(t, "m179", &o.m179, sizeof(o.m179));
    add(t, "m180", &o.m180, sizeof(o.m180));
    add(t, "m181", &o.m181, sizeof(o.m181));
    add(t, "m182", &o.m182, sizeof(o.m182));
    add(t, "m183", &o.m183, sizeof(o.m183));
    add(t, "m184", &o.m184, sizeof(o.m184));
    add(t, "m185", &o.m185, sizeof(o.m185));
    add(t, "m186", &o.m186, sizeof(o.m186));
    add(t, "m187", &o.m187, sizeof(o.m187));
    add(t, "m188", &o.m188, sizeof(o.m188));
    add(t, "m189", &o.m189, sizeof(o.m189));
    add(t, "m190", &o.m190, sizeof(o.m190));
    add(t, "m191", &o.m191, sizeof(o.m191));
    add(t, "m192", &o.m192, sizeof(o.m192));
    add(t, "m193", &o.m193, sizeof(o.m193));
    add(t, "m194", &o.m194, sizeof(o.m194));
    add(t, "m195", &o.m195, sizeof(o.m195));
    add(t, "m196", &o.m196, sizeof(o.m196));
    add(t, "m197", &o.m197, sizeof(o.m197));
    add(t, "m198", &o.m198, sizeof(o.m198));
    add(t, "m199", &o.m199, sizeof(o.m199));
    add(t, "m200", &o.m200, sizeof(o.m200));
    add(t, "m201", &o.m201, sizeof(o.m201));
    add(t, "m202", &o.m202, sizeof(o.m202));
    add(t, "m203", &o.m203, sizeof(o.m203));
    add(t, "m204", &o.m204, sizeof(o.m204));
    add(t, "m205", &o.m205, sizeof(o.m205));
    add(t, "m206", &o.m206, sizeof(o.m206));
    add(t, "m207", &o.m207, sizeof(o.m207));
    add(t, "m208", &o.m208, sizeof(o.m208));
    add(t, "m209", &o.m209, sizeof(o.m209));
    add(t, "m210", &o.m210, sizeof(o.m210));
    add(t, "m211", &o.m211, sizeof(o.m211));
    add(t, "m212", &o.m212, sizeof(o.m212));
    add(t, "m213", &o.m213, sizeof(o.m213));
    add(t, "m214", &o.m214, sizeof(o.m214));
    add(t, "m215", &o.m215, sizeof(o.m215));
    add(t, "m216", &o.m216, sizeof(o.m216));
    add(t, "m217", &o.m217, sizeof(o.m217));
    add(t, "m218", &o.m218, sizeof(o.m218));
    add(t, "m219", &o.m219, sizeof(o.m219));
    add(t, "m220", &o.m220, sizeof(o.m220));
    add(t, "m221", &o.m221, sizeof(o.m221));
    add(t, "m222", &o.m222, sizeof(o.m222));
    add(t, "m223", &o.m223, sizeof(o.m223));
    add(t, "m224", &o.m224, sizeof(o.m224));
    add(t, "m225", &o.m225, sizeof(o.m225));
    add(t, "m226", &o.m226, sizeof(o.m226));
    add(t, "m227", &o.m227, sizeof(o.m227));
    add(t, "m228", &o.m228, sizeof(o.m228));
    add(t, "m229", &o.m229, sizeof(o.m229));
    add(t, "m230", &o.m230, sizeof(o.m230));
    add(t, "m231", &o.m231, sizeof(o.m231));
    add(t, "m232", &o.m232, sizeof(o.m232));
    add(t, "m233", &o.m233, sizeof(o.m233));
    add(t, "m234", &o.m234, sizeof(o.m234));
    add(t, "m235", &o.m235, sizeof(o.m235));
    add(t, "m236", &o.m236, sizeof(o.m236));
    add(t, "m237", &o.m237, sizeof(o.m237));
    add(t, "m238", &o.m238, sizeof(o.m238));
    add(t, "m239", &o.m239, sizeof(o.m239));
    add(t, "m240", &o.m240, sizeof(o.m240));
    add(t, "m241", &o.m241, sizeof(o.m241));
    add(t, "m242", &o.m242, sizeof(o.m242));
    add(t, "m243", &o.m243, sizeof(o.m243));
    add(t, "m244", &o.m244, sizeof(o.m244));
    add(t, "m245", &o.m245, sizeof(o.m245));
    add(t, "m246", &o.m246, sizeof(o.m246));
    add(t, "m247", &o.m247, sizeof(o.m247));
    add(t, "m248", &o.m248, sizeof(o.m248));
    add(t, "m249", &o.m249, sizeof(o.m249));
    add(t, "m250", &o.m250, sizeof(o.m250));
    add(t, "m251", &o.m251, sizeof(o.m251));
    add(t, "m252", &o.m252, sizeof(o.m252));
    add(t, "m253", &o.m253, sizeof(o.m253));
    add(t, "m254", &o.m254, sizeof(o.m254));
    add(t, "m255", &o.m255, sizeof(o.m255));
    add(t, "m256", &o.m256, sizeof(o.m256));
    add(t, "m257", &o.m257, sizeof(o.m257));
    add(t, "m258", &o.m258, sizeof(o.m258));
    add(t, "m259", &o.m259, sizeof(o.m259));
    add(t, "m260", &o.m260, sizeof(o.m260));
    add(t, "m261", &o.m261, sizeof(o.m261));
    add(t, "m262", &o.m262, sizeof(o.m262));
    add(t, "m263", &o.m263, sizeof(o.m263));
    add(t, "m264", &o.m264, sizeof(o.m264));
    add(t, "m265", &o.m265, sizeof(o.m265));
    add(t, "m266", &o.m266, sizeof(o.m266));
    add(t, "m267", &o.m267, sizeof(o.m267));
    add(t, "m268", &o.m268, sizeof(o.m268));
    add(t, "m269", &o.m269, sizeof(o.m269));
    add(t, "m270", &o.m270, sizeof(o.m270));
    add(t, "m271", &o.m271, sizeof(o.m271));
    add(t, "m272", &o.m272, sizeof(o.m272));
    add(t, "m273", &o.m273, sizeof(o.m273));
    add(t, "m274", &o.m274, sizeof(o.m274));
    add(t, "m275", &o.m275, sizeof(o.m275));
    add(t, "m276", &o.m276, sizeof(o.m276));
    add(t, "m277", &o.m277, sizeof(o.m277));
    add(t, "m278", &o.m278, sizeof(o.m278));
    add(t, "m279", &o.m279, sizeof(o.m279));
    return t;
}
