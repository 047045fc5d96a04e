From b10df9ba787233c817e292074c10dab07772c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 01/67] fix: match padded field names to their handlers

A field name with surrounding white space was looked up unstripped, so it
got the default handler while HttpField stripped the name and reported it
under the real one; later checks that rely on the handler's type crashed.
---
 httplint/field/finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index a27255f..9150f54 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -36,6 +36,7 @@ class HttpFieldFinder:
         If a handler has already been instantiated for field_name, return it;
         otherwise, instantiate and return a new one.
         """
+        field_name = field_name.strip()
         norm_name = field_name.lower()
         if self.field_section and norm_name in self.field_section.handlers:
             return cast(HttpField[Any], self.field_section.handlers[norm_name])
-- 
2.43.0


From 725e4f56b47fab92ee909ac6b01bbba1ec7e5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 02/67] fix: render the note about content that is not allowed

---
 httplint/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 140a2d1..365c347 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -337,8 +337,8 @@ The actual content size was %(content_length)s bytes."""
 class CONTENT_NOT_ALLOWED(Note):
     category = categories.GENERAL
     level = levels.BAD
-    _summary = "%(message)s can not have content."
-    _note = """\
+    _summary = "%(message_type)s can not have content."
+    _text = """\
 HTTP does not allow this message to have content; including it can cause security and
 interoperability issues.
 """
-- 
2.43.0


From 1ad8a6b38307843e2e79ab891090caef767bb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 03/67] fix: describe time spans beyond the range of a
 timedelta

---
 httplint/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httplint/util.py b/httplint/util.py
index 4365a44..2c11c55 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -77,14 +77,16 @@ class RelativeTime:
         self.show_sign = show_sign
 
     def __str__(self) -> str:
-        delta_secs = self.utime - self.now
-        delta = timedelta(seconds=delta_secs)
+        try:
+            delta = timedelta(seconds=self.utime - self.now)
+        except OverflowError:  # further away than a timedelta can express
+            delta = timedelta.max if self.utime > self.now else timedelta.min
         if self.show_sign == 1:
             output = format_timedelta(delta, add_direction=True, threshold=1.2)
         else:
             delta_string = format_timedelta(delta, threshold=1.2)
             if self.show_sign == 2:
-                if delta_secs > 0:
+                if self.utime > self.now:
                     output = f"{delta_string} {translate('ahead')}"
                 else:
                     output = f"{delta_string} {translate('behind')}"
-- 
2.43.0


From e33fdbbaffc6b6b474f47a0723c3a826a4a1a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 04/67] fix: keep the translations of the note about content
 that is not allowed

---
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173719 -> 173729 bytes
 .../translations/es/LC_MESSAGES/messages.po   |   4 ++--
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177180 -> 177190 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |   4 ++--
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196564 -> 196574 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |   4 ++--
 httplint/translations/messages.pot            |   2 +-
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155217 -> 155227 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |   4 ++--
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 4c32bc3a11bf844a27ba614de667dda188e516e0..104315dfb75475feaacfac2c68323d292f275f2a 100644
GIT binary patch
delta 10060
zcmXZi2Y65C7r^mzueSE+qgtCFf(%=QAc+}jN2nE>P_q@I;hM3D5xYigHL8>vHLEpa
z6h*bA{cE*!(Ap~h@3|+>)5qtY_pbMz`>x+j7oE+q`fQGr2(PS&qy&l7#XT5?kFX>L
zmJ=zDjj$#T!3f-hAGjjF;ArAb!6Lo!3Wj4uh)8Wr#OnAd&c{2r0+T{TmST}G@uZC-
zvYWdGQjoopNENJz{3kv5M{hVEE8uzL8uA?VxN?<6zQ<0u9>Xcr>)gb`_*zvFm+J>$
zek@Z>q&3#0R{7XJy@n^!kd0+EM2h1r3_y9?YF-LU5_Uk&l~KsOWgBM2A5k;(D=x;@
zNz>nCW;5m>UPc=7<9cj>`>+gVpq^jG<ME2I5rX<eO;K+!2G`;?)C#q&BNC6pF_<T~
zjI)THdLl8zb5JjMEt0h2E!6Y=!#FBbB8q3?xWxMG$8FSREPAJS{Kp&^)0o;&5Y<E^
z8}^A2A!{<YDJdmhgAa&LHWO)y2i_sQl;>*B4T$r%pwh(sF$><|puv>iYbCM+JGZvB
zk*AFab(JPaT|Ak}hBmr0s5O6%nyR<jio8P2JEQLJ-cDpBrr;iKke#~*u>VMVd#69Y
zE0REY^-dzYaAjwa${5?#DwrH^*Zm$#aGg@!s2ul~Xf}c<sMuYE*Dvi++r(@Pb3`s-
zS<KQ?Bor(35_!u04!uR*Aa2u#28Dh5k}+J>kL<DkQi4cctlgiiVKbb`{sIGdSmLzz
zXgl0r1`ibBKUu;*yjICNh!Z%lA!?j=h`syf_>%IisJ&pzFp)^ShCH+sexG)NiO5@#
zQ`iU#eqgUG9;*^>N6qlh=xJ)p4YwP$$LhqXSP4&KMSOuYa0yAY3-v<H&@SwP&#*Rj
z7-8>t0oEc;N1Byn=e^a#)~MH=i~3+kN0NWNu#B<`)<jM1SkwV&B%{l0+=Fwm(T8@y
ztEl@+CYkZ5H&}s;N%8~IJ|*iId!@0c4>kiCD&$CJ{LdKjuQe?{)@sxXqlwc{Q*|5l
zghCuw1Dhd(oJ>H?+&0uF|30(4&^SB4A=0{KD(d)f2DObn!gwq`USv6r_1Mr07nxu;
zY=c_UWUPq?P&4!p>6sEb(cWz$)+7EBwW6;~vhkxPYKjM-?q81W@CNF2t4y|c-w(Co
z-c~k>v+)~hqso?SHLZ@}#9gofF2X3hftuRlQ*5XmfO_6stbzwoFMJ=XVdzwQWj#<c
zxf$!=4bzjt)9k_>P*b`THFYO35OYtr3RT5&#GOzxHVO4c`!N<DqgLRZ88*av7)rbr
z_4tdZ$7i2uudpFj)c!xz-w;`ir8wXM>W%)z5G*#!Qrr}^d@SmdY(Tx?HPqvB(Ncpk
z9O+ro8#M#hQIF3%$DTYYQxA)BfBAxq(t02^!k3vgOtBlxL~R3yP%roxwQYpVwOOt=
z)+HW?VR{@E!#^<qbIr5aGYqv2yo<DJnS)*o8+qp2WYPhz690k+@z4Se#<8g)G!MCo
zv{&i6P=vQ5H<7GM|3y3mKE(C7bFs*0*l~%q_Iyi4`VkL7ZA;g%9Ts0k{`au)!7?Tw
z453d{!bGf&8?YjNkD966AMu)S79PTiE37g8m1)FEtLQWga!C0qreu7ZlXQrVNn=dF
z32SV2oxYZ<Cg_FMiF}Joa6bnO<uUZY(2aC4%Byd(j66fKDtkB6<=EfsW9AENwS}AE
z#;rEif4+@zfOx`orecmi{t3e_ZrDLj!}g!@?%5yZ?PM6Gpez53!TjVc5$7TeR<iB3
zCDQ^-C9X=kI9E<0b(f^iMb6?2e1@m?GU(v(eXN$S#eO@k!~r{RB@U##4eyIOiFcR{
z#t<3G3!jD$ktB$BNQ8%zz{6I40m+_pI>Ni7<}a}|aqKb6+<MgG$C9qn?5}WK<R9V|
zUonIeM}IBSjrhU|k?*j|Ns$j7o*~aE5gMXQKh0c^#m>+&aWv9SBnOWdhwD&Z#S3&?
z#_)75h{t%$CfuORH#Uw8ykwc&jy*X(^s+6@=Ave>!WDnIk;9nZA&0ei@$a#t1x;UD
z=YG^DlWW#W+n`opBgS9`^6(OK-BwOHd7OvDS#H?M=_y_$c7I?kK*cU&5^>^9>z@Ch
zR;<)5R?_+oli6s8m431@J{fxvpF_qDsrEBB$747V-}|3E$=_IwIQcdW68Ga;9R3Sk
z4GaHj1JMjzLM(UedP`C7SDu#WX(RF2n2fD{r(xg~)C-iq%hZcYk!B)o?lHAuzCUac
z`WKer6%_f4oARWQ_i3QG`vC(I{!RnnR4Gq-NQxAAB(eY>;AouknD<|Y1KlU~?joO3
z$c_m(4s$%Sk!l8x()hXc=Sdh(yzm8C!bhmD;H&@qhm->^3ApaM4ARf$dIDX<COM8|
z$25Kva0}Uz#dCx#%6dBUo9vkJs+q>p_9o?f83c3@xs)YwK|I6Rk(A%g;rK&v*_@95
z3gR(@@&%}E<OuG-oVgsS!g*g{2mCv?<4;O43>M++AK|g_Asag|6hrgb1v}yE#3@(`
z)36pEM?F!8H680~VKgRSZQO!8xzQc0LcE-xJwbR5%j0A0gaNEv8=yCajp}S1MLppO
zcE{iXcHk`36Mw@Rn4dIN#-^wjPD0(k7As&nmcXZ25(~ZM`0IsQ*o1frYWaEOexBTC
zL!YP&`7MZDF#tzk5nO@=@H5mWK8;oJ8J5JbLXNC(SeRlI@t=jQqLuiWqZR9mm2fVW
z#iN=2hOKoB&Bs9e4m)~aYut`4(JAIgQ*4bzaXIP*_F^-<iQ4@_irc&Ij>U;*qh@9+
z>UA$;ES4%^=Z`>rr7N%+_m?AVXbm4>Hw-Fi?{X?GB>ob$ZFCB-cQy?h5~t%{e4~`(
z_nLHEO&rJgI|`rR+hk@Kzw3??Z>9^3!GZjm(aGvAdRpV>L6-8u<s5%ji$HzysPc}C
zz?nE7U#Z~uYq!PNg7^wDR7ha3<9D-sA$FZ#P@gaxKbJnkVEhzsVK-dB&#Fj#7{>Uk
zDXdY^@z;C<P~YKptc&-t16HbJDV~N}zB@C1h+5H7l^to115q3Ean$QR$1YfjKG+;*
zV>`To9kEJP&+*rEv#MI7+Ku(t@jFIhg=&t!BpZN@i9bc{KF_cY##OgQwg6iZAIyyN
z)^H?)6o+F3<>580cO_yp@g~#<x#wkW1c%dTIH5mk1?JUq{GZPkQTu6hZL7!>)QqH~
z_J*Jcd$Ksx3$Mku@Yl@p4AfWEypFjX8xh~dIP|L2wSsAxo=2_mTlFk6u^31^1~sK?
zP%Cs5wRIPZv<mb`-Tygi_xuCvV?dN6@jO^>Y=g(69l1|=!3K`59X-j>&@PyYdZX)D
z6Qz;ke<}&btAt&V`9$7s?D(Hnf|>Mnolpby#$Ta!)90v}DH!9(3vSpLb=GXq%#n|X
zPvA}BKFxI?qyIH-;mBqRMj<tlGA$iBf!i?&N49dr;lzh{h4^u6$6x8B^Ej^(k8bP8
zYd8*1<CM&}ZLH&elIfUf56s5?{+aRnILG6{AF`oCZ_YRy2kK@z7%Nb|3N@9dQCoN3
z_LixJs82cobv#&#+Nf^g9ha{h9UNOjc5-AG<qJ^vXYFj`OC$8&reFda>u?`#!){&7
zyj>mti^V}KO?k6!HntB&odf2e_JSj*15^f9#L(^xJlF+aVk(}&1wHJQcJFE3Ik_kO
zpN1?uDWE~hU%ea|h@pL~6))>+t$inI+sM_=Zd3)eJ9fih+=!aNOQ;#jnqYHD9n=iP
z;Xa&<u~}HC^k*GFoH~&F7h+>2chwZ{MIGb+!>m|lkd0&^s87@q{aFlm5ue90IC-$+
z|K{6_@A3d8hB&f}@=-(S#>54N+4UyB@AyB>W?@P8f9$cbi+6PfJ96OoM4kw5jGz%>
zwo#7c#tWmFmhs0AX>=Gh#s;XyV;xz=g{ERb%FFXWZHS}C@#Ms*7)$)+c!pr&LKDa&
zo|)*#`;>bRCOPsI8+|6*tQMMVjcF9>KywK7T^F2Uvs+Wt{-1!&sQ5P2{m-UZ?+Kai
z$aQY82fMR>-b}~;EcfqhM>s^frjQBB@66>D>iYlh`8LwkOtledBZhFn3@pS6Aq#CF
zYP87a^}(pq?|Q7u{s&kUD=(oU*n6p+w`dt{fq2JqM`(BQE1h36*mR}iFFv=d(iIl{
zKWMe1OMMB)A2}d@nym@{S!0dr>RLyV*`ITrtqbPizZ~}yYHGjT;7ETA*~rk%lP$t<
zE#GXJdi`U^|G6E9ohiSJIw@7z!u7bnq_Cm0(oL+5HMZK2JPdVY+lx9U{E0d;hHbNo
z_04oCYBxNK`pR-{w?$|#e3y6|>e4OSCw5%DOvj+tnjQPu(Ag{Z4ja3>qRs*HP;Yz=
zwRhyD1r^}Q+oIkuVW*878*l}2^Idl1d)SD$#%I<@$Dm&4AnJhj5?f&T-SmG=)yUn}
zy*@=<<^GO(Lf{^=H%1e$%k&Ov1%p4g^ZKEVY^zXLQa@&zZ?Ba{p_Y$BT?gzy9X~Sm
z(p_}KYP`=57=c5HH{wn#yx&rujyk|(JzxutTBxsPGU{x%5B0)-qISQCFRa3IFp~Hp
zYA?xu(C*U^wE~GA8|~RRh&sT$dC0n73v5fg0CniSgZc!y4qFQApk}BaYN|J)X6P@}
zwp8Va9XA#A0e7Odou5%NRrIK3(CfrTO9~dF9&iVBG6^_l_C+1>wxVX>5o-T0|D~;b
z24%W9)1#=@xrbVzz~k2H`=MU<IO?)I=U09=_oO--dO{D>1;sMdRNX;MZQ-x&#w}1M
znenI>*pB*S*HFj&><pKhp?auoY6xmu+Kk%hZlfNb@1*_Wio|H`{|DI63S^+xu;wXq
zECvvNi8>(tf;#ZzKW)aNp7$|oO8<xY#HG(zYWrYO;x(x6`Y`GPWIJnfMhz^+{iPEd
zTC-88HQt0X@PDXnV@SG<@h31h-7n#sBc~`Iao+JiBt&0u{69Xe$JvzEyXg4efYNad
zar<u^|AWMH)LAh7lEu?5)Bn3s(D{n3%fCQf6c+#1@&BGT9CdE^4kIz`s`dMyQ7am7
z%`(s#7ZRtU_L`9Ewi3FD+P1cQXTHD`;&*OvJ`eK!4f=mkHVXb=V|4W&?dSL6n^x29
zx0pOQq5n^|^ty!ETvGlslM(0by6s3h`@i|c@ju_C{p$E%Kt|uOS+vA&to=By+3(CD
zc<!z(NS@rIcM(7S!(;8H2mIyuf1_#hw<G^?!J_x+-;@`A;P_uYTK?nsUoLY0Yh!sD
zZsNFrhj!j+)DbZCkt18N+GCqDe!@G%2~X_9Lz}1eORDoT$NwVox5vg*4mkVVk)JT`
zg`F7wpCcED592(X_tNn{zXfJEa*X%{9>$sC`ajK@JFfq3Z{biXzT9=CFZ=WGC$xVt
z5%=PNS6zu^f8cAb<UwyVlQDyvOe3%TIG|w;SDxcGWYCh$IbFYT^~-G+bn;l7fU7vp
z&Fe~cT!W|a)qJk>=M`PR0~nFtl}%jdX#v+CH`cu6Qfaz3ChGcsctO`+D&0eEy;BRh
z{&f3RVOMH!;tCu{`Q;+6L}LA-u0PaHLTy|Zu_Kl$X7L!jM0^&7^V5pE{x_dBC0ze+
zz*|eY{vR@r1i11E?N4@<a{V6&z4?@-1ITaK2MY(f{x{q4sHv=6*7aw-C8+cLx3~zS
zgIxcWTu1G;E6VZ2SfM-*fS2$*=Bz+Q@CGK~l3-URYyW>U#PvU$FUOCF>xbGC-NKi|
z5n-<1_-a?Q^7E*@BDj+4fBQ|vuZeqBcIAndS8@H1(q*c;(vBn~RdfBN*TovHM3Irs
zHC=y^x+2^aFFOTKYFVn>2-pA6n5B;EFAle0UG|r(>-v*SJj<IY++aOU$FNA(|D?JX
zwGp?Ba{XR&6*Yso>%0C>wh!=4uG6o9y$Y|P>knkp8o8d|Iu|wOopQj;Ca(WS=<6}A
z|J^>Lsp~H|UVq1x5cUT(cm3ZBu`R6irnI#4R<?4b1^fSK?b`I)mWoq>IjFO0I+nxN
zVqJfLtB6O5lVd$sx^Q9)d0K!Q_*;2Bc0_b={SOOCxSIHD)Y&iLUAy3N%tw3)bxgmF
zItk_PXpJ-mHJ*<8z2GqFil=BN8Xxx=fMLX4y)IU>S*WwrZq(G>LY)npbanlePAckT
za}h^i&UjY_;Y8GmJwRPM26l7(rCN8?>#f6JJdaw@7g!c6bhrIpYc`rvkc2v~e~qOu
zR}WH-6;UtT84KcKEQUL<2%f_Nco%iLc6wTct78e`VYr7Uo`<o-O?%t*Rw5Pg<U2Mr
zRc;^4L`~GxbjMzpf<5pdw#E*9U4PcwjC#R5{ak-N&=d6uXJKR9kNWPjBv^)OqdwRm
z)b+(&jMw@97#n({(hOVLU#DUq9zsp|ZPan0_yE`c9}rq%6!8gMi#gu28*j%(#NTIH
zW}uA=15n3>ii2GLH{*UxCLS`F?#cWkkJ&g&LGz&u2v}qoDWrTg79#%Peb-+DK2a$z
z`hn{&*CU71f7w45H{<Jx_U;d0dtw>k`hUdgfd3G78%giN*in}0QRrQxAdQVfm^9jz
z0T}V2E77<SH3N518)KOyYb!%h_aDG^n1TAr+KsUaOhR2BoWQo2Wh?^@wnsg02kJ`e
z-?8-n_t>aKH`E$$z<A8So)|yQ8r3n3AbyNmk!s_upN~g9?-J?_LMGS<nT-01ZlN~H
z(i5%Uw@2+2+c4Z^?KqJeX^rwH+Y`iL6XMCJlS?{kO^Z*lX|)$NBfc`#^?%cqnr0PP
zjjbquiaHrJoo+W?hi!<jVFL`A;ric*hhlf)6psx(@d4_E>(4ajU>D-=umy(CverKp
z_4w<kPZm7ex@kOWhGwE>;w0*MrRUgeISlI)AI|iZ6f5_durZZJwGflA#60>pE}w7n
z{JsU2iMFXWaIC=?E_4d3;TsEGd4w@oo%13WxssDOak1-vC7Xaz#9>QpycmMore-38
zq9@1Mm`y>+<t#k7z;?`qAFr@+;q#T&ZT`fG9Jgkb>;C~UXti~tENP^a<EP_o_HSBa
zy=l%`*Z<tsWgWeM@;>+q#|^?9#P6@ya)z+6Y-Fb(Inxw;jd<z&>_I87#D6eq$i&4#
edlm;d31LpnMQ)t4-!GhUAkNuyAkO`+<^KV}=aY~C

delta 10058
zcmXZi2YgRw7r^mzuT`|F_DT^W2(eeK#NL{a*dq2;qhkLNV($@(*frj&S!z>zwbUL}
zyQ;LPn8o`$_xwMfzP|T7cRlyqXZ>&9WvA05oK7>NvM;ZQ%m@;xikmS6pJE=&Q%IyR
zhG7NliIs6B4s=Cs;ZWkJV3E#v7As=;q9T>BAC|@SI2-R^BE}XI`3AFuh)*IMkxksS
z00qfQh?K%2$bZt7fAogaun3++t|2c_kIPq5<Ts4MZ?O!8dYx;S1D(<$F4xb688LSm
zk#H<ct<tl9TsfaeEjH$r6ZsskV_tlVTJwPNmWigwxiS#Bx2(lfcoj86w{bpxOq!mM
znN^sEcphoUh|91h{($-M4eI&1eLP+O8$qZ~R15V6gK;IUMXgZdDk9PN6$bMJXK*U<
zf4sMP#FMJo1<!|y<fQyM>Upm)iVEcj<F#;HzZ&evwbW)L`VRB>FFCMg9co5F<+>st
zVN5;JM0t<;q?9-jpAjEwAkqZ4Hxx-pd8$U-fH+-akrBk5F&W<BpuUv<@g=Vpn}=K5
zNF5<UU8M$67oWtjp^fe+YRzAurYb{I+5<Ijj=H~1Bw4}9xSbm$=dO9#zq`4;(;F>C
zx>H`Fwa8Zdrj1BRY|_puIGXh7buVLX3}`R%i2F+wHfZotBu0eSE)l40Vj_lcfnTs7
zzV9GX3=4D;dCmT&okcPcH|j#~zz$u>7%uE4LXrH^UF1_N*F)qu*2XF9Pv2AI6!GF-
zv>om*J$j4qpUmMOUaPo$IDrF0QR6gU*}Jcc?<rq{+6z|q=NLSXJhWsUK&7xB@>b+9
z*2atj?Ul8{(!}dfGjRibn%aC{+l?ZyEb$C1fk&`7zC;?h1P!taMWbeD1GdE^tb|Qt
z?Hy0YFNlvL%}SE<-l}0k)ay<`eXu=)$-iFsEd_eP(nBn@L$E6GfT8q#+>A3ZY?xi}
z9P0j@!_8KxH&}p-Npb~gpW=?NSK0*i!QzpjLU#M(zekXNt!e&|R-<UFPP`a3RX0&j
z$i#8wur@NtiJqsKTZ{VSm;L3LM%nqHNb8n3)bZgcY8!is(U^U-$RZr#V?!^TWsKdh
z5o%3GV+GufnxQ91&y+%O_HO%OHR64!75#vvu=H3<aTnD62^fi&P_J8ToW1*ws1^6E
zVdHZ)?xHrTWbszh5?GPA1=hq_7>1WnQ=5If4YgfR&zpi;fgPw9euQPP&;)yBZBaA1
z3aj8H(<hlH+J&2<rgSdWz(ZI7Kbm9}3c*6eQK%X7q26d4Hp6GA6{s`WhS;H4jCcv^
z@uyLbPd>$7VJH^Y{@=^n;C)~q2b@B^(LY!evrV-W*Fr5Hg8C%OQEzx2^|(~D)L<-w
z^ekzQnt=<b$ETTYPhQ#YP|U^s<wrL1>48`qU;7Q6VK*3$+6H!_Uho-e+X$Lzvs`<u
zN<0ih^f(N_KQS++nq{+RVbnIz3~ARg34Qh0NIlyolcso?_!jQPopVH5;*hyam3R(m
zuhMcJqa$8JvM!wy=*##7zs2w8Gt*(@0&DGQzY*z1+!M7eoySPbzL5NHXQS^zW-$z+
zPn5uZSQeLKalDM0sgD*jmEr{4heZ;tF+TKLeu-6dECxBGe5uH1Sc;Q$h_1PuY~Y9$
zHoJ~n$yK}Sg;vobaSra{fL=U?9$07%4UzH^Yb_&5NLFR*IvNuDYyXc43LAXKSdS~#
z+gQKld&U9c5gW)R$M4_BXo<@=@merqGw+`Lm3>>d7zHi)X9T7rZ-a0O(qJXoHd``H
z$GOBIq>FRq5K?!E{gIZ9FYyf?-a&S7|4!BjSZ|jdmt(h`_YL-@yb<q<I*D%=8;l*&
zix)l-pCCz)q5DL5ILWi$%1<HLlc)o{J8J$K!-<<5w9G9-J$?x3%E$f!heiG+u6KkX
zoVdzSdIa&QW3(GAcAN(5@C>O>Ft|`K?j&<OW;-P^9lu7}iKO81qHrndt9Xfy%NYJM
z7sS0hW?gQO`<#s<-OgJk*I`GFFLc3{W>ZizSl}X+#9f%tA%|so@x3UhN7L8VxefKn
z-eM#+x?&Yrf%S;rAP+A!uiDBfC6ALt{2q1X^!&QWuf*?uqte7@Zioyg?swC==ijIm
z3%F(Thm2-JZxnpn#`w|LiTDIEc1ZC%%=x$%<FM;pdy>Df4DslD47<1uSK?Rq`5$Kf
z!v>;wTtNI5^?Gw3*!}YV$@|wvGL(&R*x(^86VIYvApc)XKsXm^Cer8;iv~>ln9A~G
z4>3QlAj?0zF5*g087XnoGX^BQM+4wg$xnJnill!*55vbe6vw>e{a4|@cQ5VTReCKl
zo*g4_6sCA%BUL;O(fF<PXCFor&-{;N7CuFN1qa@V@NlyIJ^ygsr5_ko*<41Ti`ZDl
zk<_@D9|hb(Rwwg0LKbBiojD6T;!~K5S=!#Dd@F;1E+XghVzc2<&JLygW*WyEg7c<z
zyjRc)i&8!vwT<jXy1JzN*pX74_anBzzdmuiNvS4-MMd`a_pvdIjqk7+7D{gyjKa@|
zCu1Nk#xHO`>WObL1j{nKRmV<P30LD5ZgdAr5hw7oCkRhqVSI+IF&8V>n&=zMMp-uY
zpq}tA#$dtBcHjim6YpX<Oh=kZVlC7Q$D;0Ef<^E+=Emok2Qy`Ly!Ap^tV=uwwfrP<
zKc75eL!T%&`OStcF)#MVoHz$F<3`jcK7yq&3G-m#?2aTlBK0wh_|F_x(O`b&XvI2U
z37mojagX1-7_MVzS_a~V>}ZSOxDK1(e^?(I1~`%n6HqU(6&v6+)b1DbxxM=~_&M=J
z)Xc0wz3v%oh5@<l{Qjt~bODy({<515t>IH_kAZpYUB=-&;(e%XBPy@Gv$0r<_&Dys
zPXisV*Br-X#Nmv;L-1cLPiA`ayY46ARdj(7*o|K^I$7OEpVs(Akfl6xA;+85%A-Dc
z<-(4{;&_~mAFv9}F5*aIJc|q!k|)^lx>?$ycAZ<OPne9KOFv*i+>F<;Jx=FmRVY3Q
zVf@t;mMrdgYrZb1?{FPf#YflzgG*S7$D)>R^2bk5D;iMJk>=P9wK4BUz3vNai^254
zMmP~8@e;PeVx@hKx2Bs=+8Wg+tj3Oe7>WhTINp-13)UfCkJ^2bP%{x;)*9J#{E~Qw
zKTcE5kq@M}3|6MROa<#*{jfUmO4JAW!{^^9Sdm7<37t_ZF!c+^`}uqtwVzh0WEB~M
znvvtEy&<r&Jy|&Fg_mGfyzMW4gZirKRxuN>Ht~IoLSM0}RxsA@Nz@u=sAidIf(3{N
zqoy<wwL<4mTX(ilt3YSe{aaAG=L4*PxxyTY=E2%y1n#fy$WzKQ)^v33=#vz+?1D2;
zZ*&1G;9Ja(WokR#qO>J4pGc`Xj`wM$U|q*sCzM3J@d4Cs`T{jG8S6RnA2+OyI%`&I
z;K*X)gLsoTrjZV0^uOwj9a%@gK%_>JyNM&ma2*cE0be@eaN-lZNc=3^@m4y=d7Ko)
zUpI9mB@V-rIL040ZsvI3cq09_#gEwE*&p}8={_zzhz%WjQ%2c1P|<G>)Ql`dP2~a9
z)}5lcl~+Q2(ip6TGf*4VMSS2g|F>|wHRStNj`XK|Qfu4)4t1`m+=l*No{hn5tip}>
zJw~-PQ?zruFBV%dALU`~ZEWw1ItPqH?FHLW2dE@0j`?C3c(5tH$H{mKCv~t_+PtH6
z=iwdc|1@M-O92g1?samcH|FbNt$1cvYwc@MGvRjg&yuL!F$#k*5jBG+P&4!nbuKC0
z-7?e=cM=c7X36+H*n@Qd@#Nm*KRX+9xvQpl1L_$6FQ&pAeQYEPM17)KsI%Az+=@p~
z8|kpVj`y2yDYoPRGJoaBLdyI0qZ<>a?Qho`Ho)<In#Exr_Am3Xv6XlA6Y`oQb`Vd5
zzsAxC@%>;&KEb0ynU?XwFd7|}A7KMjm647t<w7Gd8|Arqpa|j$qj+-S$=Hl|=V*pt
z;!nqrN&G3!kpYzZ9*lM52pet2*{qf?-WpS1)Pd#))OVe3yv=T*sQo`08&L6;sQaHx
zwB8dq$&stvU_HjLf5H^U`z-fxnj;({&1R4Z%5Ti%73%u`{%jlRLgw0tl!!&SU=lK=
zOW-^kh$<)8yxtjg`dx%o+5Z4bW6%OBf~~)?^QJDOEfB9><OuCfexvhi21A!P-r{rl
zQe9!u{{xmea)k>P$KN?1^>SMi{<*>$)z2#(iD$pF%GL!F@Hxj_MosPM)sFPQz%>lr
zJlRyNsO9S{Q>p&vct5urVjId&qE1SMzT<k_U*g%&S?MBbzbv}mhU9LjBijblIpHqq
z$e90ot5{pVGf=zXLDW~~Y_LUWD{M);5_ReJ9`(4g8_fae3#VWc8#;R>+hk*RGt@a?
z0_u$qqxOyzw4ls9c|Ft%MQ^cjV=*QY*Vt+|zKyksi~eAZbO7pgwqg-{jyfsj-bVk|
zRQ1_r-D?f%D)%Pp2|2f$t+6`sLccdqE1363JFgw;$TtslC3V4X${ki-9<_WB>N;RG
z>iChggYKduR+XK0KyU0voQPX6{Vq%SA=Clp9oEMZyY1BsL!Iq5qF(qeYWFL($0|Gy
zLy3=}_L9_l?LL)IE6~fwMsqf{q7E=0@3Zb#6PprGLLGW<pgw`S-%?l_HAC%CQ=N#K
zp?j!psn7vCZY1ghu0?G-S5PyR;U~+WFPsfs?M_2I;0EeslJ%h37Inm1ftrCwsQo|p
zAzS%$@;lA%kEqwVjas3chppAOL%r@U)MdGI#Ovlh31&l2Xo0$*n2DOI8>p#Gf7EVV
z6Lpe_MZLf()F=A|b<F>OnxV1`o7$$jpthx@sEzI#>hUR$+b^ziSY7-7W;V0}NvJgp
zIbjaOyu>?E2c+w$15fIcW+du)%TQB#74?a;pR&}p!Cb@(P~Y`7)CYKvI%gC;&0N6!
zC7cbdSzpu|FTu%p6}4@2`Ps(!z4!^;FZvfpPEg+ajN^SssBqTt{`j;Ar%_(^SI7GX
zbO=`vH#+BdA0(cl&Vq-|TkN|)|8Gx0#6??|Z$VuYX1e5ff6wcQIyaofP@I3+`u!Eu
zie|lH8Hm7n#FJ5bP2g2q30*{OTg$JR&u|8D_3NC^gPglg|Ifunx*Ik|2mfwAzo*@_
zny$LV<iQE;Z`;!A1b*a_@;gjMoVV_tBR{kM_<hIwd^i6O$G(6(uvs+opRD~jF6<$5
z2p;~+79@W^qIVHLe(YoIrU(4vcz>g*`^1rVTrk5^`Zwk2pE=%_k6Qma-j|DH&uuK9
zk83$DYm%LJ0CfbM{KAp-SmdS68JF<^ar7(u@KE=){gR4!<9J_0?)%u7zySx}I&vEu
z{%0o^f9J?q;%zt!C%kvO&u=+DIC7A9FYd=N;(9;LYB;X<ZZBa!Dn83~r7QcB^Cz_D
z*b8@HObS<;u|H=@SJI*HD<)$GHSv+xZX8f4jVo_)B{FEq(zLGExY~VU7kr8H*&m(G
z^%fqlFot-+r>?j9eTzMKMMu-SvKvcfbY(5q`6sjMjT;NHx-y01Z{Q$Z|M$%1dP}9-
zsI7NocGsJ3Kgr=rIZm8|y(vGL)0I%Hn9KEs+M%e8>ln7eYylPz!1KfhQ8<78=dSn7
zXF+b)`y23zJg)bL%<Xwy*+~17b%Cz;1EDpavUC9X9lK!q0<QPXHWoFNK?PlJ)|-w!
zh)-hzRtR#vS8@im+s-M(6JwsjJOG}+Gw2i{Bls&0$LYbYjMM)AaZ%U%Y(5JY6IU!|
zPjm_26PF5cy~bCvxRoD4?G<@TxZbzl$#|5wWl2|FX?ZEv`zW2Gv@4M$p??|ITY4QU
z=SmnEiKyUui_|$4UGb%+;O{RiRj(?!-iOB5m0fRfxV(z%EwQpxb-hU@lI6{KZm<X^
zVg69p`=q)7wGr0}bG=^kGinBt)o{I^Y&|dw_i0ztUd7k7TyG%r)pmVe>zrDLcgg`{
z>bl+^q0iKFz3=u(^<8hlk*c99McE(F$n}0N)NgF9H@=CTH}^|d8ngdSxNFmIQz}jc
z#-Yxthp-U-hdRI&Xy(dKIJ}w9mA0H%jXcf4#r&<j8aqn0aJ_lHKQ1HQgF5>~x3mk+
z!t}%^P{;IZsFP6YR@O+Xp~j=IHEu&)@nmRC<KsRt7((34*VbwlhdN7rhnl)esIy_!
zcCNS5nT$Hw9K%?2qFw2OLr^RB0Cnw{v%Tvr)taMTZy^Tb5!8x4!-AM6#`gQ_uu-3a
z{;2c%9t=dc11ZM>s27gFY&Z=Aa5d({!<ZRwp-$H?u`&jCbiMC@-EcckJOOpJ9NO8g
zHy5dhPtLNTsd|O_jzYRvYMNsw;&|+Ue_=Q_?&^B8-cr;HChz8Y>w%W2PZ)=Fa1-jg
ze~p@<lHKjWI-#yF#$&Y3|2x>w8)awM(*8OU3*Zl^DZhp~E@bNIdjAK6S{O#W7gwV6
zvKz0$+Jxu)=ICwXLJaD-P@s?N{bt;R@x)#F(mk1f<S`qkDX7tp0RcbjPYNkd!0g25
z2e{rE@Nbp!3<F(nxnAyT`Y-#(<2p<=$lm>CY)<?FQ*nIbSnGySgXvwA*B@e;?u))F
z6wGI1ANC*WN>3~`%$4exh?;?0sEsklaBC}FQTK1gNK8U)%?(Ca1%{%o5B8!iVqarR
zY&6o&TaCKXdN`8)-;0eBbVIH2VvNQl?1+)0tWoViZB&m@D^g^%_48QN^G=}NAaIP0
zki#*I_!4TP%pPa`z7cA#Scw%~){b%9NS`EiygflftV=u$b#gg`TGLG9ZCY)G4Tw)o
zaJ}Dj*(O>A67WmP|3RIMLMPdc7h(kQFIW=;C%fJ^;;tA&9PeX8PkexS;fhntaoCpl
zEb72fe5$qnk*LR?L4C5k)2y3DqGo6eY9{ufo|k>P&6eG;2Jtq(Z~W!Hsxuh7X(Ur{
zIA)$j|HfIfZJysa$1+iGt_>UuupSrMk7Y2;JXc;|H7v_{<q}*;OWbR|>wP5~jA6w2
z7ua~w1+`6$K?X&i>|$dY1z8rc@ZbWg@MBz-Xyd~7ORU@6#W;>zu+;VbfEcjMy3uRY
zwcx1buH0k)k`>mQ#;tU{&uvXt(F-VVgULCr6Q&{V{;ifXgbidPH3h@{#$!t28M9Ld
p&4^13+MXEXbPGvdKBPpNgg#MDwuHbaXX*H(QO@?GQSQ|y{|A%{ke2`e

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index 4955c31..c05b5fa 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -759,8 +759,8 @@ msgstr ""
 
 #: httplint/message.py:289
 #, python-format
-msgid "%(message)s can not have content."
-msgstr "No puede tener contenido %(message)s."
+msgid "%(message_type)s can not have content."
+msgstr "No puede tener contenido %(message_type)s."
 
 #: httplint/message.py:299
 #, python-format
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index fe2ae280141c28d569bfb18726ea2d64895380a7..b3dc3577e5cc5d33cd7e768f52d4f8e07dfc54d9 100644
GIT binary patch
delta 10060
zcmXZi2YgT0`@r$%9%{twU+o&PA`(KZ#0(|G77=NKn6-Ds&Q)5(-g|GUQF|3dX{n-$
zqO|-ph^kS0|3A+?-`A@z@B5s)&OYaR)5UlE*52`(Uc)UVBGUszYT<4yhtIGmmMkq2
zh>;kE{jmmaz%Pu*EgVi9A0*NhFJd^>2o|Z1iC7u8;Vis^OL1gbk%d^WoVXJ0i0tC6
zB}vF!UL+JlkpH9;|L6;6VHrG&JVRciURSz;$Tf_|wHQvKKIb|Xzzh{d4A1w+Tv(!#
zNJ|VOS2;O9v5G5FpMynJL<-{#^hc>`b6yOK62>9-$}r^JvKcetU#K;78|UMPRMSIh
zCI$V77f}tla4puueOLnDquyV_rFexn2u3YYBh(j+!qvDLHAAgxiX`A*459=Va0;<g
zTO^8j8tMZtM^LSJ1NFYQ7)yqV)S*mVm-q?iaWlC|LiZ%af6j$b4af}%bsCCf!q1~b
zs5R-=h$<ysh5r$sXe`nkziUGElAg6GFCfm<j7$^v#B_Lvi~5m%uZ74~Y}?ZIjqK4P
z<W(9Xd2wX|2ioaQq2~NGYE|WJC6b<;w?#eQv9-uhoQ}JBL1y0S&-ue`Y@6QvRHO&#
zmE%Qr;Ig(N6)>i~&EU8M``l|-gy$6NK<0SA)a4+6gpiIRG{3Y#?Gsb6oFj4`OJTas
zB4x2m7m=5okLxP(5pneAbSUiBjT*z{-Kjm!pYI`(1FQF>*03>7=6vp66qa~pZ~6}J
zmwtUj_)iw_56vnW`*H&p)<=zV^tWx_6yK4)33U`~94HcjmytqCfkE^WOhj5mPGThH
z`@%L^0#+p6f?C5j(bcLgJ=nge4OS+egXQsO48b=@2bbVP`=BnUHM9fU;VZ0;aYJky
z&&F!Rr;%<YnQ6D$*b?=*Gf)e5WGMBo50+u}fnlgsn}j+c4P|zjio0<JMvkx#yo7qb
z=tye<>I;@4bCUdt^iRn+$~I{XYQZKUQ-vJ%#g9i(|C-alB%7lySeJMuYE`A8-jJW`
zs$gSel9Ms0HMbeH<kx)Z`A6IP>m$8eCZNs_r%?OYGfcq3Uy3ZoB$oqyaKSP5h0&-v
z9fx7~9cm3dMMkES9c$Y*5o;6wfSS?tU)lL147G}Tp`Krit??@Ab3?zjZQmU=<L)L7
z3UiQ#+Nm;)vpKDd;l%B*9?ru$cons33y-%`Z7<aOW?(2DM1Alhtb}DJ*e2_QT9YYQ
z6R%obDUfU*9EVz^3sI}?1eU~X6K#enVrk-d)EfH=^+o$J2A`v5pvfdV#kyFQcs1(v
z=TNWDJlQs3eGJj@KfpT>S%Jm4;8)ZaJ;7isG{shNBh>UH)RL@2ec@%)>$1{QgD@N!
zS<)4?2Ckr9pJSRWc^#iFe$4yj00+hOLX5<BKI>1nFPMzl2M(b=@HuMV2%ceAxvp4?
zcr=#N>#z{sM}N#Z)2^Q7Q2W5ANWYe8=tgmneU@EJ;_wpjEj);aW^*wn%@Lt{$R(t|
zO8dDYw2oXyYF&EHqY(HM*W&j1B0KT31-7^6Tqx3=xIb!Nx{R%{@FMDeHwRxVVgbTn
z#zc8c#LBo1L+~1EO=Vj`GvO3Ggdt09XMEtZ#xk4HWDIbq^5rbaSe2V}ijG>zoPc9i
z+0}L8YM$CdAGAi~cU*w`xnKar&<o41XNZwrd4sKyS4geO-V}x$=No^+dVwuA@-ke%
z$<FnAHZu<pkJ-Xf%=O2<W!lAcTN!ECW*cqK`8w`)rcn~w^Uo;EMZG2B45Y(Krd@W+
zG#lp-SERbQS56>#myvr!e!(~R3Qz83(!pc<*ezkR{r0*d-`V??VIR_?X)p35?)Mxp
zhsXdLJQ<%Nl_2gR5eg?IzqjeXBDE*+hiN-<{tjCb#~igaw-)vKB&w@8=gS-uc}(2w
zI8!)r-5*6d5dZp<$R8MbLS%$P8M2=gp(Dz~pIPg%&?$N*4oCWl_))xAT!Y#aZ_qK!
z;iq{Z9;KKKc|nQa>^#!vysgPC*qQ6gUa(uU8K^Z_=AyUU$oH7bp$@Cj@Vz<FjIOV}
zb3bay<g)Fh(Wn_%k5Tv@DZE5ou{)<M6z3^%x~q2Q^b*ezn?KnLkg*Fmk~s0Y9iER-
zGgj;dJ85mhaU8V9^8d4Q{5b4Fd<L02q|!}Zjz@7U_Ws+J<RMlf9+ygo#QnG$2j60-
zVS(FrBASE?h~<ub-a^#(1=15;?IbP-Ut^2AbPT+R`hdWHSbA|G(oH1#9!o3c{MT+m
zA7BZZpx^^uN=YLg(Lr(7e@sYtmkz+K5=iw>DU$n{$ZY%%hvWF?w0})5G%sx1MZ6@D
z6Ju~R`n|F<)g&CI@oPJtzrqCKxo@Z?e1_Tt$KQH|l<(dV@Z2@;seTUE66hv&q~l0t
zT*;3DULhOPxsFhavX;S|hZB=Nu&!ild!6*XOai)zT*#I<AD-gw2+~vi9B&FPmBsOz
zAOV9(pN-l_4&zqLlGTw=?mK{S_%NH}ElN>L7U7&9;&L#8gRNK=%jUEXjK>d&r(-c(
ziPi8J>Ww<B>0Dn8>tYYAjvH}1FS>)F#Ebda6M$zh5T9c_`m=Mbhwdm2DsylI^@bPN
z5rcBu3#Xvon1)p_7u8e&8=*dUB<lIqSO!mH5qyb7F@Iji+b>kZhQ#Ah)6XLBbL9~S
zTA~uvZ$4~~{x}2+;sVT#J5fvgGgib`SQN|UcVwx<#uV!i-!EV@TArUdnz3$J9%o=F
zJmNDATk0H|lZm(qCpuwE+=9)~Ddb2aY>6M^V$=uh#m0CYb@&Arwr$@L3lmR8t(i@z
z&%J;#SgeS>e+X)mF2zc`Uk-DiIedm4FrcVy%LzD__y^R!5$|u?EE($)pT@oTQ8C9G
zHK%a}aV+!iFnobkshNTNt~)}U!VnmRefTw_i`75qYK~tA*eWkj+VNJk8mJ|&6X?hg
zoQ$(DeHq8wyUoXD#21mNLP`cX-Z0A<Y@c%rwS<}YxwI35a2wvh4mg{iRT22K9P_VM
zVU-Za+w=88ZNn{C3m;(|mM?FsI2kp4moI*bn$cnv9BG4nP&@N6)aSm&c37S<*c7K?
zYrKk|VQ59y@%D66D%wu93u|-YE=FLPN{+WB>xB)7x1kQ7S6CBcE89*s8(R<`^u;-<
zIP#t<4#yg#hlknGm56nTH=q{ep6fdZ3a8U>Lr>HU%&g{kKcCN`j?=o;ZAQkU*2rnp
z(GXC>mMj+a!K*PZ-u9)xM{TO6HLZ&=lK3BtMK`pTO-S~67B$CtYulQM!IH$IP^)wm
zYKAVM_U=LvHUm9T&+kDUp8w(}=wHW?1Pay_qw!c>M;?)$ub!iOM_2sn+Xv1;ebE&R
zLy2^}PbJ}aiLgDgo=DXOj`wLLh(%xb2~|*Ed>nO{zDBK?d{K_P;e`!QSIv5j9a%#B
z6J96&ys1uPjK2oW97!Qz7?L9?(cF=ra0`yap)DM7xbZ1oB!1q~@pd|=Db5GP!&^C$
z0Y~G{INlexigCP8GN1YEgqb+s(-#lIsV)y5!GTV_ezCSBHGK|5Ey+66s=kO?wZ+@m
z38oF|obO@;?#F0+gHAeT#5h~>mhpCexPVcdZ`am#)^+IWuz112HyGK@*2I54m$YX>
zA%hKRz|x$*+riHLxjNd6)W-<YhhZ@8!w|fUIzi>_#1zi`?eLUd*V(QSkzH(44d}x7
zr`BaE37_D#uH+c~yV<p1O?TVd52DsY-X6AwB2h~+0(Is*hFTNPP}h>so{nV0-l(hQ
zaQqf`;@8y7=e^hm5Z~)d{p)af*4I{X_I|b`@tBeH38<ZNI_ku-3$^#(!(XsMe>?u)
z<7nc*0kkOvNI|X9@Ig$u#Hpw+>^#`cjD0YWc)H8M0YlXx|H;sycB62Am?OuC8;o#-
zy@O=qDLRY_B(WCYa5Aprc>QSFkoW=S!+v8NZ*w_;YGkCzJ=FOk<ZDNMB%XkJe~a;s
z_aoI!n&5a}ryisBg#*cUBFQq*&UDRCt1tz%CQ?yn!Yq><X+_3cp~mZ`*v0ArzT^et
zsD@8DKYBW&iulS*N64FWoy{6U`kgtBX#bOc=Q-ZzvPKJR@7;<4JTU!2yA=yY?NpyE
zvh%_q)Q!YOq<_j&q{B<h5@t@^xRhlU?=54B#at^KNyO-tj?gM{VwGJ5tFK`d)bYQU
zgNHou1QyVySnEhC@rCuav+dvD$Rgs0sKan_3Z0AVE~9qB+Z!F}ixoDp{*%5O%Mu^j
zV$c7JBZ#YhOB3RDY>&CN(uBNU26CXQ(O%T5{%D(>I-8^R?pdg9{R8S2EX#J=N$dLT
zhdN^}#uj)1>tLxJw(Yy4E;fgK%1%34YNM-*zz7cF@f>Of%I&fb=z&_*-=LQK2^OXb
z>+H7UzQZ0zrjxz`b$<}L*Jj{2YM;ov&o0jis2NH@ok#AWJ}>uv#=o|0r~T|ya3<>F
za}xE2jNjRsh(cZ8r=U(Osi@0u&;fg253EhR0(Jb~K)t`<L3>?0)R}V;YE7O&ZMr;%
z7&|%+I~=l3#Nos{@DPT4Zy)#owdw;8+Z#KeR%r_AypV>vu_$uH?)3(vX7nU#P2@ak
zr}#K5MLY@h{5F?^PdRvj`hw^m>^hz7^AeUIJ>Zz_j7>0z_)F9WY(kxo9;4Ps*m1}E
zQ%oXiC%lTfUH4<~Yt7U^t@=b?>>lMnw@`0UtEk~mb{9MnV~9_qzM%LC`=IU^LA(&P
zB!8f`sX1wfX%K23ibrjdx!4>p`p%d7*$(emq~={o;y`=vdej?kpq9}8l+AHd)Dn!x
zlDHT3g@0i%X8Oh6Um3M2`=XX~zAyb8mLbk^+SYIt)Zy62i(T4|1ARf!Gq&?Zqh@3p
z7Qr*9HS+*<v=l#Uht+V@jmK}OeIV1Xc39Q&IUEa;z6*6HbPlz%=Q(E!5{bomzx3un
z$N6;BnmCL)tX`oG%Spf4ZS-v{!0=mg-toTe?73iP&g6@Z_i^bVF6R2>zuT#}<|Rk=
z5ueAKIPJ2-UpzzxU2)_-cKCzwKZJwkSD7O5M{I_*uGtq)!862Zs1wWHKW*Fk{bj9>
zx^Wqeb8tHzz^Lnv+`x=C?0soItNqXMKJ`q(o)o0;O~!u&2g!eXi-DX>r45M#ZaZ?6
z2eiCnm(|>9Hs^COiYa#NU8<bxe!1s(pY77!cf1c1f8aXq+xLJP<$R}y{D8q(kL;R|
z<uTiG&WAp+?+bnEI`V{sY0n%vj9)!><ON2)pc8Uq?U#=CEvMHjyV<Pu+WxdUjnlZU
z;Tv1!mr(bPgWuYpWcqiSvBdi@H_xf{-u~o@5hHs@@8TFQ!-ZU9yuahU!GAb0F`e-?
z5{aylhlro!Qr!K4@qR+ZW-#8Tl*}28SMpo9it`6E8Lt4HG8=ETE8%CnZ%B)>7<tQi
z$!cU5yu%)3XeTRJK6H!ZFha+cu$)GEazUp5vo{Pv<_;N<%f28iw~>yVzlvM1RvzPh
z>%EV<n$5{;<TO6PRW#Ajd`7New}M>9bLz7+Hs}1kB1Se~jiN@sF}ZS!gJmSN@i*Q+
z;5kMSw=ZTSm>bvQP~r>4jW<y><BOAa(gmm!)E(@GHA~uzticn+=}Q?2;r`Q@6W;|G
z$&Wb#jW-Gc%NTh;|C2mH#``>$p{()df#ukN2b{yLSh1Xu0ho$9#kL7C(h29FX8Z-7
z!};Zn_c!2P6^v{oP9JK#MQtk{Ax^`?xUr(~)|kGPjJUjC(m2?LJt`YnjvrUCB{_ia
zHLhyBPp=<`8Se|}A<U!c;kGYS#NUW>Rx{#93IE34_@Fv%O%t@OX=FO_@!CdzR7smU
zM!MtDx?~^&2N~-bZwHjUzAe#vOyYsdB8~LreBlPh`{FUBq49eCWz>xKU@RtM8cxDN
zjf{kI{d?>}9Nxr8J$(^sQ`~H7ykVKEx$#C<y%xsxdT0NZbPg`)8*O{#L3WmTh<}eU
z-gmwGt?dK;jy2w%?xQ#(Z+Jl~c9@O1uEl4@`v$x?-gr}OYFpb>f$eM)bVHqCm!a+>
z&f+yJ-QKmsAwz=EuhG)K10~?Zy^gk%mFi@?FBpSS7n`8Y#`~cWhaVEp#^Sivmwpm!
z6KCjRyyZL+wUdrQ-ASFpY&1#1uD%Sq-Hf+7bwho@OzeS&Fb)H|8*iN-gLR01!tv-w
z!>Th;GhCpjkqC@Iy>1Q$;_s-dpVQ0MKrj{{Zil+cx<ff=$H8jUb>8$g-XD(|pw8`G
zF$(8n5&Rz()9d;e?`u~{%u8Gkb=_}^4R9Xn^?xDjmAprN{`r3Py8Qi(Zu4D<;Xs$q
zk*MqYHq@M5LS1yy51`j#Yt*(|j5?7#!IoHWpsj(qs2MnmO)$$Kn;wTD#4}Mdegt*d
zPQ`B8jSKL<vUDY34C;wHSON<Twrx}wHG`vZ816zXN%=(MEmDKA0&(~dTT{KT5%Equ
zk22Jbk_)(<FkzUHFEQ6}-pl$Ub2vyP;q?e3^YF$<Bb`YfHp=GsT9U01p|jQ^Js7pg
zdW|+R7*Ajd*8bAg)LraITwx4N!1c3GaQj#zMM>ZBl~?t00o?;6yyf5s?*H1Z0ZHR*
z8>XRFX@&8|`)$}8b?V)R+M6>^urG>6?JGO5G2X_iSTWg`QPd2bK&`o;iPruT8UMXV
z*hxZn^q)k@aUyDbAGLS4nQR|C19b~_4Ru&mnqs`4RLQ6>NJHH*HJ)lm!8+7!dK&6|
zrKcHh)9NDqP}WYPD)j|<X4-Mx0=08Z#@2Y%XXq@ZW~y)kY7GR=F){{+Vh4PU+U9NN
z+9`S+Y7L~HXJ1?cwdAv~5MDwp;4_zlXbuwQ+tqIy>d)}}3v5Zcp$@;J*b1{Pv@={s
z)K0kuwRiu4H8IN~J4&K3fp`Ueiq2wNBk`!ia|vowxv3niq+}JA81Mg1Ilt6McH)l9
zjrW_b{|Z~O^eb(rX^uL)hM<=42h{7|U>Igu%_2m4y*0-B8rB@OuM}Ks#2>q${=^%H
zl+~4^94sQC?FJ+4!sG>J#RuQm;rM2w@%|WHVUzLx3ic3ha{YqM#{28os4aF;$@;C4
z>!jD*YGgka-e$Z{E?0d1joEnaeayu9H`@)LcnXSqu)`)~^O*-Ta6yq-nFFS$PxxY3
h|FQD}cFzxRx|egp<~gxWikCP(CDz%U5^Dyw`+o+eqSgQa

delta 10058
zcmXZi1$Y+67J%WigIf#5H3UnrV8H_fCqSSf5Hz@Za49VARxCvlym)bk0xeM7xlr5-
zlv14H_d7fP^YrrWnYHnme{+9+lzic%<TFBCe-W7xAW{)GV-UW;oR~9EBtKThGT046
za5?rfB6n~Iaa2K(4tNgBV(CI6<uL|J;(DBg_b?s@78aS08G^)>29C%k-kO($ghfS)
zV*%tpiRK@D;WR9OCy-~zTh!}v7ZbUGQTQ_klc>+RhFQ=lA!2xbHcX3t!6Fe@f?TEM
z{Mb^iNOcb8mJ-Q<*U=w8qUJn%X<HMK$i31JdAF>_BzP6IhVJ4|n38IGPR*>q<ivBS
zhP1c@tKl}xgC9`u_j4&;b`AniOH>{81%q%ou13vJy$T|&us0T@1ZQz7@h93XjCfKd
z`@oB#B3Vhlj(XpJ7)6G%RHj+DE~YByaW%Oaj_zTK|Bef*)g)&mgwzsAifzKECepjs
zrb>z9@g?!0IwJLPM_rM`q$dgI1;pRf6B$O_0TbXoF6u@4U*FTb*f_%Wjbsf($g5OE
z^5V*94z$z#ftvHTs8#h{B>jP$H%2|*q7k)%lW_+xNXT3LIls5DZPS}gMY@n)w7JMu
zoZmvE7}jrTGdPm!)8}46Kg`}*<SFl$3LMbkr9c}Inq3;8_KArY!~@P?KK#;Fq%h`f
zFY=!AksU<R5r=nVbYR;~)EF-4EJBi;=_2wimg*{U3~S&N&Zq7sa*{Z%JAH@uOV=JE
z{3o;dhh`PilN-1&6g5uX+qQiz{6hLF)KRdq57*#Dq|lPSFPXv^q*dfF*1)v=Y?C#^
z62xmzYvLxlTD7_R+ZQ#!lEgExC?3Hg_zvmd5-`9%s1<4rZNO-JgXJ-Dpl##nSdRD@
z(yb&R?N$lvqCR&DYQgpmqW<;4A4$*$mKbcSb}&{X?mL9BkDKvFtUS~{@B-@jtUp+r
zp}t@qGAGHONdFWw%r<F#)PjverV82Xi=Pdn{xzq0hT9yq!YagZs8w|v^@em@R|;z&
zlbq;%T63#WOMb<do^FJ_KNRWRG8%P$_ye_%y}(wOd8Eif9PDzS56&>kzAzj$rz5cp
z?m(@f=g7#Ez|ppCW3UqOe$<S9#o}0EjIH91sOMv`5ne`pZsD=E?c1Sd++D>%4i4_4
zcB%y9Y)*?}S>h&G4QFCyyo_44naA6ywj=6&Q&2Oo3-!TIF&G0U*d~ict;rQw0WVu!
zNk7p(I1;r==U`Plgn2RPB%7fi3?z<1tuYt%Mcc6<zC_JH&B=C(9fF047olE%3ibMg
zQ*0B4Vi6tx-Ms_a19Ne~Nz@npi-j=LR9nT>QPT&bmSidF3ooKxmxP{L5QCACC9P3w
z;1cTf$*0?rhxi<V*?7O~<RG_Rh&AxN&(In61>;fsz;4tBzC`UC0YBPRt~FL99*RMF
z9cIVJ=#NQe+SM~ZY9DBb^lO=fZWss2X4%Cg60Z>7!C!IrY>}oocn(V?UO@V*G@Z-r
zh}V!>mkzOvWqgi5<1at4(qW@{wzsF4FVdN~8){#=h>bAw0_uMU2fY@sieUg_qA12-
zNnDCW@Cs^8C5>Y##R<3{3&h*b_{3-FMK+^jFu<Y87mK99;@qTDbhV|_1`b<hSJ$!2
zd1@DZ&<c7a&c;1l(4AuFg@LQ+h@=-?ZENHWQme9c4IPQ|HP*5~VV!l%^|)-ko$I&!
z!aP7cYy-8)^#?XGTjJ79Gz&J^Oxtrl#NEQfNNCDG!|)sGZ2(R|I;<qvZnsR+aSm}1
z)y2JX2+6w)+)2;IclZGh@1l0_z;5;k7`De=mu0WLZ$9=QJ)HI;PvY+3fVo4u)8G^F
zIZ_ESWWNZ7lbi=^`bnhrB<dh-N6z141abY}ZOtt~y?!v&m7DW<4~x7a4m-jWPF&#+
zMg;N6qx2gre2fn3P=;j3nOsO1dxA9{Go2Kfj{T8-B8ezo6fQ<>ig)N3=J3-z5PzkZ
zwRnNw1v`&)zG!Q54YuR@z)N;(HU+f?^Zt)a;vP)vP=_UH`0gZx(e<@=ZbvQIM{I=Q
zf7%Qz!!Y6xNa3a0Rl9RaOmW^2e?i?jy}mATp7`?(GEIE;rpOP(F}LmTe1@8_?04+?
zAtO1^7Zto~=lGG>p7=O2cSw<YtoisWj>b;+ZAt#dVB(Pvn09eHF2~*v`5&hL%T7e&
za31kT)aT84WZ#$PG3~FNWC#aivCb2ECZ0omK%T!@fN&1dO(gs&n+8nr51FN8PcRQn
zkl|mNi@5v?W=h=jk_ibP&;htr@=!fgillza2*ZDH2#$J3`&Zz?&+ly8m47cXo)g1x
z1Sa}mXR2{HSmTd&JiFM6_{UFdv+xCK6CC_3Lg8e`7yjY7i@!3fa=3&*H?ad9N0MP2
zKMHt-tW4lKLM_S?26F~Zj7wyVV{3bx^sP(+x`~`a!)C%ixI2{e+sPeo3ieOocumj@
z3z0q@wU6vYhPot9=}2+z+lfu^?^KSrC{<&!D9iaiE(b$7Scio%FtvSP6s94bjJYrl
z%i#gk8$V(YmSlRXg6*+9uEZ_8=pGg)j^$@h03OHu_!66AHg>Mn&>h4<Ne=d*-tY?B
zV7~PB!U?E1-p5k-4b@Z(tD`=6AnN%=SOAZqAHK$%m@cE^?H5X7E#gtA=_io)x$=|)
zEs-Dfn+cnuKlZ__I2+UBM${4?!4mieb7KC?j>J16wXrhs<199#1^Jny8EcD0aSG<c
zeLnAFgwCNUn276gA{rxb4c5m`SR3nRcO)CeqCQ|N*1>D2!!IC*ZTl9OgLoop&8$Lw
z?pbVz+5PPOeNdZp9tQJ%*~@|E@CCNUTsdu9j>fsf`%(Kwl)r7WF<71W81BMvb2;9q
zIfhG!Bba{&<0~vp&Gg`R-EYJz7y`qvGrwkZv3iKE=J;)Zt@8ANj<>3nMlE?ren$r4
zc$|e_u>#I2;7C0@hfEccv!LS*vlNBwbMBy)FabZ8wqZWpjMuR>PUmM;C_WEj{?#fh
zR>bl4d>v8Sa1B<(r`QAw7PVD81~q+?FMf`i(d@+>X^fpwJM#h5=f1^gEXWuP$BEbo
zFJm(-T*7s{J>7&7wo`4wN}PCrp_n(=@wQ|gu_p0))Zz06wI(7;+D<kdzbD@1i<6gf
z<SSJij3J~4m$9QO2CEP+M=i)-uJ0gUSvn0jbU@9()N+pZ^Z69&IIU3LW@Hp<jT}QA
z4Y@*W$s$l6ya+SmU0?bK)TXLc!5WJ-h#z7Ux`iv+gfTu(pyv3yO15U|V_xDxs8t$|
znxPA*y*pE=%|Hj#^IK4d=Oe6&*(y8Iih{Mq26&)~BQHo#Tg}nEqbrH3+Xv1-ebFT>
zgC8*u2G?-BO=(kPJ(1!y9q-dhzFLmAPbh}^;)AHe^et-5qz!ZA6ECcSx@uOc<47Fw
z?|7TIO}I{EjK3=N99cs`KO{%uSKpDNxCVc~zTZ3IaN~3QAMwiw$J^-~qd19(`$syG
z7>D8s9OaAaHFUghJdJ!tV^Yp{@WnlGn#+R+aG+Cfq9|LEGCq5t&R|PXtNJ8r)n;yN
zCzx>5Iln)K;wEf>FVRWB6y3y@yk>JdKb*iY&PTSeoiz?!9Tv|xSc@Uiwk96=oYj&E
zg$!1t0RuUIyS1JBleMuKDUYF~_rgNB5sTmr)Cnq8Tc&XCkHnLDT|2u*gtWI!)u}z>
zpIVnOBvi!<9mp|e>}1!11)Xhg--_C%sk+!23PCMN4C>6e2el@iqOK)@T^&h<ZBbXv
z-nbFh;#g{?MK|^V#CLmA|2kZr_Ow-;u$L`K1STPUIBKUHhdQyWL+$-{@e~I1woUW~
zM-cnP(54h%F=~w#>C2Q$d=2%5P5axKu^r|o9_Mnf&ro&9f6{Z1-6-52?8sr_3PT-X
z?;r_yiVmaH!&wWkHyPJ)96y3KBz}OIu)`?F+guK(8X0MF7j?eKJJyjuh=-%zUt_%E
z{YZ8DO>n%gQ;$*m!j_44B5@|!nXVdY6)r}tiEF4cp)=W$NHQLV8plnwi`4^s&kKH_
z8k%x`zzjwe@!6S<kT+>Qn>B{?n{yn|{wMch9q)5l=seqdS7HDU{D2v_A=iA{smd;}
z^FkNYjl@!<f6CuThnL!M%$&G1o@EyAE@FzsWJ??wfVGx7LaWIBWp))Twt`hq$NvTn
zp7X%{m_?i7XGb0opIBu(+osiyEFgY}It)jxp>uKF8PraAW1S;CF<?FGKk0L^F!8nx
z_WV5@N?dp&O^B<pB_`WM6Y_rP%z>^(8&In{`DQzHR!8mK6H(iGH|iG5*<w3s8J`_c
zXUv)SJ)XeIm~E?V`<AGS%?_V$QAbP3ZPdRm0x=vk$D^nj$g|x(pcQIWFF`H&6U;#s
zmfm5<ebi1zW{@6>x<3fqWizlBwNIqlZI|aps2N&}I*;5%eO`(^jDMXln(Sexf)h{|
zp982jd`4YFD($uF`)JgO<r?bp>%Y(5*9t2U$D)q^%c%FK`PE(*i8^!sh+30}QJXI1
ze#VZD!>Ik%5jcc+4erOh2kZkMpjN%#L3?8qYLzZVofmGQZY<LOX7_sCP&0Y}wI&k(
zZm0Nqn2&fQ>iJbJ2TeJ6hWdh9hwM7-`aF%g3T8iSJ7X0rNIVer0n1P)q{pZ=5_H7z
z{uI+4wG*C4-LC84*P1DgTJ_z1vAc@{-9o)Wt)hxY?Jl?vHY7fT`hv{I?1NfjDDe!`
zlAJ?r)BjML(*L;aLlLM=G6i)veG>J2wi9-E*F|dHm3|y(?~O;j;WBCoGoG|Lu8LZM
zVVD;;puX@D7Q!#6_ZK{6o3K4<NvENvAH@RboVGPw2z5BN^J15_<3L}K;f(EkwNNuM
z7X9!rYRx=A9W9y9+F{ijb>ndiwGVtj9ah2Tti3TS@jBE_d=#|?Ql7U33BlaFU)pk@
z<9r-yj(4CAtLLc0a^wZOjlO|d7=E)ZI^MUPUoP31)BT_0eO!8o3%P#oWjhs@xZ=oe
z;^TM^$NuT?7Y{yoU3KIcMqOk459FZwb*4z%hxIV{hJEp9JVSg7bz<3Y)3&YLvX)2P
zxD3EKxEl9irQ43&!Oy7o-MV8fde`wj^^C->6eQg}#(yXW?tO1DkOL2BL*ndzIr2L<
z)_i1_)fA6y&Zl4)Q|#a;R5{oE{?ze4+r9tC@jgtPd*;YW?%Vh;HOl!W&-np^6JOXh
z!Fk2Dob!RN?fU}XxQ@IgVeDH+4&sn^j{Juq|IrD#vE+Nl`<Bz@gWYTff3!cX4&ijJ
ztN6)Q`DxU>W4F)tC)ryZO}z07KVErG@K^hjtF{=~NqRHKco|OX8sq&P?<M}ti4h5m
zw~^@18o8hNAB@NKiH!FXs%~QAeM<R?mr1{##K<z-n$&m&Xp+o$t6i4l#`}i!V+tdm
zIsX>7<Li{h`zzU6R<KND%uWBT5jwU6r8d%)3%;bWH+1>V2y=&YN^4&bl-@`i&Y#B(
z7@Wa)-+J$(u4a=n8aa(ma2ZXsE0d8M7@d{tcuski#`>JU>t|#&7SCz)8<Q*7IaowO
zxWDoC0so-R%?)!IDa4KOIEeT}ZsSc<)%fD1opd_t1a%WTVTrspBMa~t@dqrz{fF`y
zNsX@qjAX_{`HeRU{0bQPm;NUy3mWh9*r!6qn+N6=Hqx309K}tTKgdW7UPGN?!;2Vc
zi<40^{tVCKw4%oQ8*rOqM%EF3KwZ>U7B}9{?^}3~cxegatugI`jkvsDZgH>~Ta`4j
z7{4oJOR@#OYFygLQnifnzL0Li3>ufUeIY+yAWmG)NODSe6}#hu^0YNg(4c~m8N_=l
z8L5Hcm5p@9*;U9uVh%o6HQo*=VRc)gH#nRJ&Z%LfC+E}EG~O4F(Y1`%>(8KOycJ_{
zBHqHu*rm3SvRwZL+Y=Y5YowaK2(>Bx3^(4eOjh4`qpRHa#`St<#|SzH7qo9+d*xPk
zmKlgoH8kFLz59*q1Fl9HZ%>!JiIGpdAdDSm9j>d<%y{2`XErz9RC}$3Z7RQL+XT^A
zl<VhUV?2U4Fh@(*4u?-Ijed=mj(kzp#p7-p+sU%EHQpDDZm5fme>>yN@%1nb@g&TR
z3w`MauoCenEQKNMZ71!Ex|2GJj66xx!Iwd|lkrxkXw(->z%IBAo1kB3<E`_9url$l
zI3BfO)d{E>PTkc=DAq>3ZZhV_Q>d%oJJcG;)y;VS&xlCWRo3mvK{N;RQP=tZFgsT0
zZoIj@IffBWLqEKNx%4{BfmwSP?-x`#)V*T^tcg=mufK$>SMmn+`Nw<N>%Q%6ber!=
zZ4Pw#?1Q?#uR_h)Y1GBz1L~fwPK<54nWz)V6O6!eeQXU(LCwGstcy-xn_dr#5KlnO
z_)gSi`x<uAZk)QG@wQBZP*2>%Jean>ZKE=%861FvaUE(&@(nQFBGnCx5f>R~YpM;_
zCSHpd@h$2oIWfq{7Hl-w$Vf~!g!i)k$Yc&4knm!tkyyO^gOPTm_Znt%d||k)k+)cp
z^jvgWZL&5ajP%F-xCTp(v^8}b+Ykqgq6xTuA_}e^Z6qh@YsPq0FDKC5N5U%(e#1>;
z?HbT;oNdEfs8t#;-gv(a+oDdr8&P}nSJW5Pnqd3N8mvQn19j%hKhc*_)a&-6)|~$&
zYsX29|869#C80BBoJ`4a1ZsRAwReY4u@4@PQN$Ne=l%jyjrWtvMSa07)E!ghX?7IE
zVMR?xy)Vaf<84~|BmGboPNypM1u19Raa{wobB)4Ac;08=ET(3MpU<c@;5Wy}DC~)?
z@dav|H<)Xu=s46G_<;K2;<2{G6H!OkY19Hfbve*)HjRF=tKTZrpW)xmvn7c}9e%qo
z5);g~GhAcTPPqWJcb~%w=q#|Kq!P9wj>V?<4l85CLff>nP@BrV#=%lb77%B=|98sq
zcq88sH(qSK-*g?9*phuf#;a6cYKK=3)DrGSz5XSZL1#IO5b5Ps81HLXb=1C+=4T`R
z*bMb2-VaDwUD?IK0umamHo`7Uo?%LSu+|R8m+Or8$LN6d#``PSL%hfJ(|<AEU$gpd
zu#1Y>Xyi8OB{mt^gXuOK?~}_}pI0#z&%KXHIsbBt;S*0*J~VQm2?@4ZQ(|J`^s|x$
p%orUXup>Ue=@gW(bWqXcu`y9jw%EK;&gAjiqMRMuqD)Nm{{aCAr`!Ml

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index 95924fb..e0be4c6 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -759,8 +759,8 @@ msgstr ""
 
 #: httplint/message.py:289
 #, python-format
-msgid "%(message)s can not have content."
-msgstr "%(message)s ne peut pas avoir de contenu."
+msgid "%(message_type)s can not have content."
+msgstr "%(message_type)s ne peut pas avoir de contenu."
 
 #: httplint/message.py:299
 #, python-format
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index f61319f12a558a49a8c32b5dcf48173f5e8b94c6..b12f21dfab22954413c4f125f9260370778a7086 100644
GIT binary patch
delta 10072
zcmXZi1$<Xk8^H1B9>z;6ibzQc4j2o1qeqOA7>&e6k0AoDbo~*KPC;7m1*8NfsMMr8
z1VKPa38e+4d++bL&psbNeD8B^oIdyb?>w23>0(NzX_W#Wh{&{Hkt(<m!|*W{z#>IO
zieU^!VsEU3E3vN=xrT#@+k}X8!P6Lpl}d<I#Qs<o*W(PlfeUeHsK`9b6D9#^;)!e^
z*CHfjh!81-;mCi|k$*J98CV>DL7pKmP_HXmQse@*!DSdlqCV#m=Enb&7I8ekAZEkD
zWkg~zl2T>m{Dg7=ky;$gFDH@@FJnQJ@>cRfSb(q<a<2?R@|Lxj4*x)Hq3bvY-=dlR
zp=DNKM&kK2LpEH7HE|0T#uU{13kRrPUJgp2)~Ft82E%YEu0<_S)5;=o*bhUf!6}?f
z>{S)1OFR|zfoH1GtausqzE{|S0_BgUPF&Z&2Ip}tr5TQaLsb6>7uKy!X-J5!Ba$Aw
z))k@Eq*pzflz0i=Cq7tTq!Iq~A<avA<_2UyoUI{+CQigOc!P_2k$$JK$U1BrYh&Y$
zCL)wo>L6ta$T$vk&>cZ7`3uyh%F$FLh?2KOJ>Q|Z$UvNi8_6I8xfbO7&X(4vS6hp8
zC%tSNksokTTal93ti2U*Oq@OU0_NvAh2kk3`Ac;Uf=LMPAVT*`OVlwj1;ad%llTFq
z=_C@0#XE~U<9w?wBJU74>B@k@Zrx}x{5pZw<NV3)B5z{FL|P5&<0Q^!??GjW7k|vy
zA%E%BQ-uFyF8|Q2lI|03;KEv{@teJ^?;GH2($}EQg4O>OsfK5eN=xof87J5u=@mJI
zF_^Qjby*yiCQd?a;j0+XrY+jfGHQusiNC}MJdEM^5*gr9qQ5<;GinR{fbH-(R>W2V
ztdD161>&Q~u#yb)TUCrjeeQJBitQRm`|E>ckUcOGwP}Z=E=U7eU8dkhoQ^R=?18_d
zo-Z)ej6=;}A+jdPMPz(Rx?$F(%}^^g5m_o^XKMUl811hmEjHXr)ETQ2FGg*uzff<;
z#dYPdKC;NkNYs{Fi(2ywsp+{!*!{JT(JkXp*M}phW9%`;VZP5q7U1vz2m0VVBQ3)w
zs3jePk@yp83q3++ri6~NzU_}yiT9uuG-$M~ACag{+ynLe0&I@wQJ-7tbL;yA)Pe`r
zaFCCKo2Y{-{TM50S&SlXhc$6FM&o(Zrp-6jmf9Yu_f5xAxDEBe|6&;o9cNwE5w#^(
zVP!mT1|;`*dvGh%CY^`cbO*5rW|?3GDvd>n+n~1CXw;07u^B!=Ex?BpZHWzFDDhI%
z>rbFwpJ9@9VJ!^T`QOJs5cwY#;)3I-89l@jn0K-@aXr-Z;ixrPj+)^a)ax=cQbRBb
znOV{WwFS<iUjOD)t9f*)0ep}AWh)2o>xCGDuT!lx%`%vTItI3*KJW?Z*eEgG-f~^A
z3h@XG)9WxV-o=8L`3rk{hM|su*2uV)sTios!5cH|Wzq_NC%%T;aQjRy#^GOzFg)aU
zWV}lISt9g~TtZr15@%Bhe1yyJ`#B;%;zx6Bv}c_sl0e)Wbu691=9q6j?Z1(OzVmqj
zVF~6$1op?WxE#ar0%}WT`HF7B$+#WE7usOFmujU&R?zVn?9t?3^Ge3@+@wo%-Nmd4
zIC6=-T_-H%sonKK--!H%b1|6<`cMtMFmwe|jP$ZAtwo+Atty*WG37X4|6AS{*myOW
z;fgi3)^A$NIzT)!iB~b#@BNNt7niSNreVwV^gZXJ1K+cZlF*)ihG90^tv^mj2CSst
zU|Xh{_$6^^nu~koAX0W2x=G|`e2LHT&}J4L+`EO{5;jb>>+=6(_btMnq&K0zD3b(s
zaKIWOedzG<_y}nP32Yaka#Cc6r5{IHPulFH?<o0ej3sWi+gffJ>h;5EuJ<`#e6Pp@
z;)eTJ!ilTz7l|i6en8|LmO3ah#G?*x91>w5%7nwb>oM;UMkWqM#))L4dM)r9)UJ4m
zo?{I^$^&sX)vQAXg@3hmq~}R%$t3K=^`WP1Yc?IV1&g2dUpKM?vw5^(1v>s?PBdib
z>*!2It(ly$QQ8Ex04uOArXZD<x@T?Yl!@v*B2IJOc23Xm1hKowUVws~!lA_dFWK~b
zfLgFZm)S{cACBRmIYwNuHGT|sCO(F&9a82hnd5F8g&+TEHTeh25Rdtb0g1`D6#HFc
zs$uTywh&Fkxx{kAo;MFQzhaEUfDV!X2cKi(TMP_5jrxFMw|VvAJY<+ilRLaxG3(#9
z3B8Af>4H4>$dsB^`<DTV8}73p;VlLLw@NXZhena?k40wUeH@HqpV0r6xzIhezN_|(
zL{5yv5t#A0tyB|nkj5`;K99yY;#n_gC47w91^Zt4m6V@e6Y$(`QfPh-ml5bDcBtn`
z23*XK0<w_RX#$?min5H!{4OUZrZpF{wY^08W)=b6M9yPNoD+|5cQw-g%INt^@CTVZ
zzYF591nDzT$H-1xhnX^aQi}VwVk`V7i|4<T>atiwaehF6gCQKO!%z&(Y7cCKZxK(!
zLbw<!;9k@lby?H3z5-Uq?pP65<M(8A14|Jv;Ac-T9>Zez1lwRicCIxsFpPt;9PC29
z;VE{&knDEhWYimPVmZu4GnK@8s1F{BdVVPu$D^1ZpJ4&amBaJ*3l*>q@mSRKUy%F)
z@-GKkqr$XrPHc|_aRBDQxtJY)M6K~*ERD~x0EXrAWTD5#6r+jn=C*=H@H0mX)(s<Y
zI(~q=QoV_>x`t+DA^wmP9WfS@un~HBJ*kJW_#Q4meZXd{kC#xVUx|Fy_Z=`F@f6gS
zS%doAQ`ig(<+u9>pmym(EJOaXlLIZ`V~oe(0@jz~a2D|%)UnZ~p!L~!tVMhjH{&~n
zJb%_4#s3kvVErA0Pq92L^Iv|~?IK>q6c~m*`8A_2tJ@gR62AzxCeK~e^WSQfP-`At
z%##5)31?tXanIko&B2Dmr;(*XiiCLnG|O7To^uVghUxja^dpAgdc2JBIFp}M)$mam
z>#sIpxp2?l^YuXO!z8SN|6(hQh_EIekD9(AHGYIz&_X3WX^A~i2lHOk=f1#p7{MHD
zfK#wJp2v@{ROx`{@98F&wn4Q4t8(HNR>R_DJbz2p18WnnN1Z;;u`;$OYlCbiHYVPd
z8oyc2lN6db3M-Kw6=}1pKUODRiCU36fz*SLC<YBTB%&7Jiwd6q^Z5koJgr{Q3NjY8
zMUJA*hTuw8vlgfiUWz&JdTM$KYF9O=Y%ahU;@j8)1Es21!uV8wK`n8Ps@5{iun6%m
z)FxemTA<%iM|a+8R)9p*^P5no=igWZ3r2eqN5#5e6Wm+flYdFiS<}<KV?Z+2vIl;N
zn$cN|M2YeIPbE?KJ7Ig|eIn&+d;X`D5MKJaPbi0)@jldP`U16Oa@O_aB^lO6eQVaN
z@5xuh2k;Vc*9N+fG5=~e^kfwYgOCzQ;YOYuz$6@s0~>qdapNOAP5dO*^LIK&sZLtr
z!A(8+501dYI5stI+RXDm$$XS*M@-N8#MJmx92elhLpadU8PviCSrgQyavo~>RqTo-
zTiPI-gIeR8s7;-(m32iE)KR?%H>P2b;xyv*Z9Q3wHQL$qyN?}-o3>~EH{)Of2hT7Q
z9d#Mg#(Q!Wuj4}sxT}L@xUrMH8}6VMtYK%H4GS=u_-U#Yy4W-uii}@5fvmQYrJF6y
z#S+Z;1m^!pPRu4j2TATkRy-Ws!<N#wdV2C-9vp%Cj#z>^I4_{i``n*cOLf6$;<czP
z^AEm_MS9ti9*KVuPr%MWY;Jm6m!0ZM`|DbLzOPNIpnjH7JJdd%ja)AaQ8QeEI?e8)
z?rci-x0>V~;K^*_X80u)xPwQDM-H+<7dzOVcW;Ol@G<Hj4+#vVZ|JMeIG-D{jqqe2
zCVl3~JC04`C{IX|iJyD^W-{|wd*GUJR<rsOSlc=O6}HCsNj7M=Or}7@<)?W5Z@ptv
z8LT|7;WXYAq&NG*^S>Vk&d;EaDM{i?yD*O8>q>SJhhsSXq3`{*s7?PD>PlFMr~kkM
z6H(um`R955FQZ<#o^+4e<e*|dFz23=;gPS|(2%}=u_xp4%u-MO*8P8{<@ztL*_EDj
z!{ew+W7I0%a@;r&Ly5P2OAYZ3>h&?J$&mB=a6GnJYb|pniP=CrVjY7Oe_rnijVa+j
z@DjsyKYISB+FBcRU%`_ua*&e~4>6LGW!cP{P8^eL?||Mvd9sKM*I`qP-O7f8>%PH6
z;+i|GKuNfb^zfZFE${ATuyMZ79?$<CFczl}zr-;(aWDG_t;ySTcpSFJs<;hxdc8*7
z^L@DA=J!~vOMDW`W4;4+z6C}TPsg_SD{4zc9Q6DjHWN^n>?f#eex*Y;*k@oMfrL98
z^u*?et?zfEroVH<UZ2CTBk?&bLd#V7*&fjOs3&_#--@~oA9c)jI!%AE>sO#wEYoo-
zSP#_K^8xIDua7hT^(7L2!UokEtVR3?br4qk)oL;cYY<<<_E`L+ZNbK)PNP#8k8hl^
zmgt3g|2k}i?zC-M+h7;s$rz6hPBZ`Y0nL818z<vx;$!$4hyHFE4>@B6+m1R0(w?;y
zt~KfknuI+t=$vgtdZQNf0BV;8pSOIvq0XkSQ8y;P1vt<ZuIvT7a0O}$+(0dP*hPCQ
zjz#VJHK=|41a&79^@m+I6?HJ)K%I_FFWFmg32FgOU<|%}*~V6DY(gAZ&Vde^=cr3(
z%PUsHNvJE{rPMg&sy!fpI*9gR1m^wIR?LQ}jzhg~7wR<5@|WlTmi!QPP;NziY2~=)
zS0o_yIndEQ8MSH8p%x_kx;>~fYF{Q{DU=(w5S2!4iQcGVXgwCk6l{paZ(7X<p|<E|
z)LD>%Td?LWtx$jj4m87<+g7t7s5Ll&g)#3P>w@a2gC_w8;8E1RjA0qm!8r_dbnir6
zA)jDTta{f9lz`#H8!<m#$5P}k>F!xcE1>q#V4Q<HQ8$|({p0yRzc*lUreEKGJ;{WN
z?z4g5{I?J6e3^$VK*aY^Yq;)_ZAd<TY)gFP6VLzj68e<4EB9x3#{8ekg+*DQHN#D)
zD^~0a`$4e*({W*ym!AKXEasI>qwi1)dIhy<i@mlTQ7`<OI8TZV%AZiXG`l$8?zoD0
zD<0#y37!l1Z==XGPUeuXgFpDR#Mb|D{)S{-I_H0k`Zm3jT%^ZlaI%Rdwns)MiNuAo
zIR8&GQ{Qls!h<)w>HH538?riC$@v+)aWtdK*_?F2EZLp^N32iZb+VqgYmR{P|9qA!
zm-GLY(<!%;_M8})$4L_Y_MY?Kj$`vVzYB)ucm7YZ3I&|M@*T%RWIVf|lik>{kn_JI
ze(=8YyW%yL<2hUTOwt4&7IFR_v39WY|Js%<P}KQbt;k}|?~`oBo&Opw72@O-58Q*>
zaaRc^8*pT(lj|52=KS4o!EopQNi}<f^Ea(OAiX8SN;?0O&fwBc8WBqwS^^rErG<zK
zlylMt1Fy<EArI*l<^1n|^D8?4%Vm*DPHK>zP}#{&Zd_f}`J2g4syY9QNeb$w^3Q1J
z55gJMo&Ra&J#LCf!(Ys5I_ZHeYdc|}%kFy4-^8x}(8*Wam#cx(4<CI0<v^RTbVHgP
zU*lX{+sH{fZmiST`TP83vCdzp$~AHRf-(aWxh|-w^MBR$Lft?7jpwj=Gv|L7EZN*i
zFP<})KZCZwTP>Z0V{~gLX&8Uf=OZWIb3?zjG!+(W=lrizgK!V=L+po}+cP*ZJkI&Q
zhR32dX`Xl+oVRfSaoUbf_TysIB|5Q_lWVvGpW*V(mf!!nFbH-2H}7hLD}6T`H2ZKc
z>7OS!DMU%7yFK{*M8C;o2TmZlQV-{Uj@yrKbKSC!oz%n4J#97x^>PwM7kt&*2{T!a
zeClKo9_U94W5NI@fifJpK{N%HA8cJvafp@hHZCN6(NOx5466*c>9`7YFg6Z2|08m`
z5l)s6Z^Cc6zU^nu|A?J_l+CID#*jX9w3DKE?sF?>&{*0(Hwlf#Ssx{`Gt~Kic7pRi
zAeNeBHS05(rX+pz6b74~pX#J0cAD;F6t4J!0%D1o&i@58=S%1Bd>&wZ3Kl=hT#fp&
zdx{>{H=j)ne&(R%94EZcq{uwyf5*$P!1+6ua;SYg3w58+^(!*QMVJHs#C-S?^(B;N
zp^fqctV4VZdtuH+&ff!$!!69JSEvQs6j;pk;~;2>^LM!ssPFmq*a=slzNa%UwZR#O
zvxt*$DaL$b8Q;dL#F5LK{}F2-MiU=GU8*xLcmDRhDeCKYTB?CP97K`u6uV=o70h2;
zfch5u8RIegN~R6=$6#ER>d{mmV|CK=t+JYRKz+^{)LC&6yW)^<t!1tt*9RnIwIzIl
zmAGIdYJnc27AS0u^S^G*L7j#L);jqNXW>Z9nZy!{^HH1p1nM-+^PRnPK1J=i{a74j
zon0S-0e$~><e&xVS5PmA;^&JNpfhUvLeve)Bh;p^@x67)S^R@Il%GMmP0#Y9rPo2-
zC(Os2=xwmBx{Y^<r)_jH8Uwt^G6WcOL7Scbx0^Q@8B;ltA(<78^tq@zo*Y}PK=n}H
zdZTd=>G!rVpRxOPC%@`_JFKrS;8^0qI~faHzZ&!6>s{70@9nWMl7Io>#1;;Ab3^i8
zTX+KdoP0w39QBK6_x;ZQJ&=qY^uY(5zd0R)lZpR89eh0x^7h0vsC}LJkd6LNk+oi~
z;zt;F*q*!PF!NuVBJ&Ze`E=Bh7yQ|pXeH{P3Oj0pun+1OIDtB?>KrpSq0W|~zt~G^
z5^6?ykK6qNaX4`@R>KM>9DlE2FrElljfS4GX><{FP=%bfC3Y=phEcycxkXDQ;b+A2
z&e&`By|Xq*lTmA2<eWJPb!YSd_4=suw(ullC~?jU)^afc4hE8NGSvnbE#rNtEfM>N
z72pi&plWo<YW5@6CeC`<GHQkK#0ybtnu1!9;a8mh5zD)3vtc;u50(?y3IoA^I!Q-s
zjKE+Vcg^{KlKJk2?bYtyw2bH8VoBBqqyBQKa@(4A0T!fX{=f?8{q6iOCzb9x{d<$t
zz}8se9)l3apvFsakB-0B9IPW@_kC(Y0s1|#QJeh8R<JBjoLuI7BRq&DpOOI?y})E*
z_uR=C;%)dY)_UnAEw+7S1?l+O?2ZLU?~R$cZ+eR3f6vK7llcd1I8xn~>d_e)f~N(=
z^&QlE)STdrbAr8&VL_2$5gBKH_N({q>~~stzoylbU1n!J<>eaF(%aC|om}yM7+wEb

delta 10049
zcmXZi2Yip$8o=@AJ<(dXs`e&`#7csoDt3%e)QWM9P_b*P8UNbj+Jw@gR*f1BYEvz0
zw-l|SYPV)>6~+BM?~~7`*Y|zSyUsr6|K?tNo$>VRj5DGG!6GsvRHQ0y#Bh9og|JYV
zNO7!z?_y7k#^pHBiCo5E#Bn7>67VEe!iuFtDq}w^kLz$YUd2T?xU|Ru%n>dDY3hk2
z^VSd&(nN}s#S+MW(vE-hh10ME9z~uZPf@QcQby!=jKeQ6ibQ?RdCY@eIT6S6^I=vj
z7$wpK%aN<hoF7*qAX1xyxfMhT-~|lE7pOVUU(sr!8FH@-MBXi{F)f}$t)VOUDgK9Q
zx=+olzzoE5sfMh$1Y__UEQ%?p_ZJLMy!;%5qL!#O>I;V8a$Jp?p+;3iI$&QcNeNEi
zRN{YWw^-uI)$D<%tBd3%{Q~NJ|6m*$%2R`8;ktgcIFGBz%}5L!p!m<YFs3d!BO$t;
zNIL8oOEr<+qdrwiya*o>?{6T|7`MJJ@+RqN8}b6;OpQbmi4!mguX0fz(*OK`=Easx
ztZ$@mDneeR7Lu2MjNw2#-9glxKSiyoEY0W-<h&*7`L->n75pD=<ppVYYcS_`wX`<9
z*jl7J>5=~x*^CR?ij={|?Ja|&s6Kt}SuBY8<3;Z9eyPF%9bQUw6rtIrDQcgXgyB5k
zCoG1qI*F9Vkj^5{Io~WnBpY$VE{qQB)Rh{;&$@|_BtLZ*c^fPA5IKx>a0=%$_Y^rs
zys#I2hxbd5k3{%S=I{^ADy}y-aA9@SI744+`+E3_^i`;%U}b-<!P7{gCHnv}h5e9L
zkpox<vktT-YlG#8*PzzKMGR=w78ztOYKrBFXJ91$fD!l%>EIIju|22*Y7K3`cK8G<
zW3$25#?$dV;=@R{k~FkiHGCiSxl>RJwtEQmuMd7ff<Ca^P^;RZSe1CdFvdP^#F<!Q
zxIOR`>iN7Q%r>Ymn2*d!@*C1W#U)ykHbyPjcx0-OU8(WCMCxC2T6Co4r~}p{UWi&%
zmr!rW#&s324l>D!-lsLU8nxtSQ`573V)s`^dbf;0ogWUO_OS=p0dtQM`5cD^IM4^@
z7;P_Xh?>(;_%3cmt)ctK$ds@#*0%ky8u7QN8GVgqvD{dz;x4G?=V1%{74^BL$64Ed
zh??=hDh>*8a1FIn1&z0yMq(x6Rv3e`um=8$TD7?+*i_pE^}Z>n8Q6~c;5!(FVH2&%
z+M(9u3ao;^ngPi^$sXJcwMvt)7VgIoOgGsw6pmrUai}#GKz-2`Y>p36Gf?+`HpLFZ
z(!`5VuRo4@eVQrOgw-)Z$A2&XfcC(`TyPBaMSo){%r(`jxHf9~P}GtvMSbCE)a%mH
zQ%hnLGO{EdwFb_hUY}vQl{`AtVVIBi%Qg;*=!IAZpQl=VhP_|{Y9H8v`oM>%eIs<H
zt#a{Lm3TOY>vfnPZ(=Z}on@<ManwH09O>6G83VB#q@QhzNi#f4d>QxPjyWQ&acB}t
zC7we1tF)fW?1<-)T9<@*jAgu!U*h^tS?RFFeCzEQ7l?Et?upu$PGbwq{TcPYm4iN?
zv5H|RV<Hm!VR>AN5qK80rqV5BDaDESEtXhho$*$x6&G7Z$6}~Qm46}f4wmI6ouXrw
zQX81K%vRTN%Xw;deb5SeB+kK|T+oYR=!Idc=!m38uC^L^g4C*PUPDLXe4VdYps>MO
z=6YPV&gS|}>zN0L6E{$sT)+2gW=mX}OtWCqjkG=IqXV0G7zwTUClNDIZy)0nq{B+k
z7TYpS$0Xu#s*8JNKazJDyp5iX&oBiKY^Qc`?+*3|7`xN1%d^YwTYw*t-jMbpPZHS4
z0dt4+qQNKOeWVg(*ta4SP73X{^kYcvN!)j|9XWrFO^6%svzl9idi_wUs|e>q4v0J=
zj{SitoVdzCMg;M(L-ZRgeV7jGQHJzKm|RF0ca$|Aa~%_zj)RbXB5zQ<IQ#;&DW0L{
zn8SbMfw+fa*5d^QPuV=u?X=b88vKy!!_L^&Yzk@(hWtV%aVKW=sKfF!d@mAW>H69`
zx1g5n1-8J3zgY&BVJvY9Qh13uXFI1iDb5q(SExIu#}`C?CVu%lnI=AQQDg*hze_ee
z@1bTa|7BZ0WE2PbqLNo^jvs}ciH{(2heTXu&Br}B2D@IflHA59;!)R`c5w?X$G$iC
zA7=m4CZh2;pZEpp^OF9u_Z7WK`)el|#=$sjaEqRaCs7|z^fn6+CL!HK8s1^kfEn+S
zSxR;bi_!!+{-(KzD?ebS#N>xeNO+wNz^zi0>Y-93^HW9`-o;@!`WfwCg$rLkv$m`J
zTx0?#67ds!BgJN_@i<iD7dD;)*nxQFzihMc0csO`_fmwy$<|l=!*joQ&8*7d5(3@C
z4)#1rj|=%xz$;{BP{0#vQI;^6b8uq(8|Ff`wwFlX%p{<j$Rrvz7arv9>ZD)F;Q3Q<
za7NE>f;L!+^y#R5WEV2j<<0+iQkMI+VJp1-mgg@@F-#VfINv|O!Eg@NVrdM^Y!8gX
zcZmOog>fOihkH?Pe1YLup6RV7cE-xM5;yUpt5}wJ9zT0R@dy^jhxlL2$Idkd14B3{
z&%tig8y;atESB9aoQQhkHLQS{sHQSl8}-41QO_^N5_lL3;$tj?*>ZaRexW?pBOZ;K
zeiV6MK<;p$B`Qe$=EBw(jQue$&cW>XHEM}}z;gHm3t{oxo-Fc2>SGP!n|UmwCHa}7
z8S8|RI0cL0?o_W~6P-gdG7-PeiFVio*I;A(7whBu`8~;p^H3kK85`hv)ZrIez}mho
z79gI4S~IIqpL+tEWB!76e}B{_osUtxUv_bzIedWeSh$e2<rthx{4HwVhzqth8;iAx
z594-xyRhevn!~t+xC!&`P<(_HshN-XUH3il3Wh);cH`HKE><@%pgDdTYE_;+%=1^Z
zil`-zF7C--oPe|OHCDmdB|K?_Cy}W_3YGNyVV1F!J?AoN34{2#^bHonjd%g$aXLS%
zs^k4|=3lMCG7+A?=j(#nhHJ1Y-oaK_GSaGeENXgkYJ49xqxs8t(h|F&cILgP&wYyR
zuq0!!Ax^>;_$#)-(&Yl4zo(m6&N@{xR^!BVtd1d3p1&pQf^~`4p$?xXs5Q}~ymhka
z_yO_u)Hp*0PhL~SQ5a2n)Vnsi`e9At<){VuGmv^vtP-7u8xl}6F!epp|M`3zb(~hI
zY#AAiS|f*1M?>LgD_IlN2QS8)cqKJG1+}T_RWavb9pW1phk?>nEn#e`M^ST}rJB`D
zV+<i4f?B1EP&0H2wRh*LZW%~GJ--Qcc>aa8FkcN%I#959Y>Inpdh&qutTCSM9Ru=4
zZF}Gh)EAw>cku-l#i%--zbS2vtS3^ouIGPRDOS((_X%ZCU;G{FFnx+zGg)Ij`Ii^g
zL|rwjHSlC1@jkpn+_9lfWQ@O>jXYUH!ayWPQn0Znhj0y!zyTk4;&J1B{Dt^o6VKo2
z9HuyL5D#kR$(uMFkK*XmxKVS@|HjiI)pnSU^9iYOZ=4w5!5?#=z4LVo>tqe%Y^qF3
z^&)oRd}vGSWYbVf{0C}PXKQ6mQ4h6OC*js0GK@2bSGDzIJyvRG!|yNbL>$|m@!y<-
zwH!Q0kA}L8FYp}x9`DIxGPtdyy>Q)!wl-Wr&2UU-8x6Ct2JyXABNJ?x^+)=z971MW
z3F>N7bHQ$ATsOx5XiiKeK|4w29?W>yx2H{|X+QF$KMyX3x<<@L?VP7j$9?ABR#X4Q
z8pO*{Yvu-K!MuHJN)N~D#Ghd2G<=@vYfW}^AoZ_v_0I!sSf!x8sM#R9U@CIG%t3wO
zeAHof4RvP|`mvQH>tIjj5!c5g3UCE~Bpx!<I$hmi_Pp!EErWMZJ9%(m1Z_iGwZYH0
zG5sf={D3P)d6LbsF&*OxNiu4j=Wiz61bg7JiB_^2lbPE&KO0+P+!X7yUr!}N#HFWs
z{%^el)9I`{FJ=a71?lx?dH(mqz|XU3V{#Hd$1ZF^_H`yZjUzFH_Rw{IIcn9PN1X|C
z@$}6+FdlWa%)Y?$e;Fm<M$(^QP71b$F_*#%zyE>_4e7g=dNK)rTJFhR-T${<ssHl3
zeYGcD@gVBd7_o*`jvITUu6~=pqJ($__4??wypZ#|a1u6JZ#8pv1EYcX<77H3?%U`I
zl_?>cS;TPVH=h5gw(?fpSMa3M9OUA}Eqs@p1#M?eCyw4}Ye1J>o-F2tE3p~Y-OYxB
z>psIC#P99346VRDq=$TG!}8ibIveM6?f3le0f{(`_#uwRQ3u#ZXi3u1;2p3zR>RGx
z!|O5Xp0DOX8{df-OMC<?Vzxte{(Y=LJOSI{Vbq!`cG&ZO*nEO9#CK8W{IW-^vroc6
zHxjOJ@DVmRn!1Xire`>2%jW>>M0^rMsF|qa_JB4&dUAmDO{m-Op+DJ9C-#J0zX-Kp
z-bu??N7Utc4|c@ICmH{`h{XMDooX4@Cccf@3Co<al8nY$#22tV7CLQPumI{XI*Rd_
z=8V-u0_y!MQCG`<P&chje)0T2RE)uR;+wxP{`CR%f3+LO;9BAX_zL@<wHNpM%`)~4
zY9Dxkx{+vn&Pu!jdlILhZbZ7Aw~X#VZPNS~>^<#JN7G!?jmhx<2Rg%*{M{~Ggjxd^
zQFC7OqOFRFsBOOtwXN@>W+37ZyKWq6XS|3y9AhupDmWiC1BX!8{dAYDZ#BlI#DRqz
zXs5Z4I(0U@VkI1nI^+G48V6ss2Mj{(M7uB&vtF|qGbYuMsP}C{9mYY|J^#04P1H`g
z33btW>xN&DfYjhXd;1vFsy&ICk&r*_L2Xdmas`&fr>GNA@xQDlx}f%<RagR_U?VJa
z(@Ne4wMI9fj)Et+1K+!)1qzVBfxa;Mww0_OY6%WuQOtVBn&4ebAa0L?aX)HXMl+3R
z=Ny3AySJjwkasZ*%ipsMwZ{nJbyyI8$FjU%UUHyq6#2JRabNtDcq{5=^Mm`I|MPn-
zmSFhxc;HD!OnS%$g7Zrr+4&NWnShA@LM`FSC$=H!^wg&K@MoU?>7~d&tghVu8Uxe0
zumBUZzHmM2j8*rA{h(NjX}K`!U(f$a7X8wO(U+*5=`3p17JOwpq6GYc_?_3*DL0}v
zX-09r9dHftCS<CR_MQv)t5JB6lTS(5!XJEEV&gZR{XS3Y{Etyf(mBaZdfoI+wlT$a
z%;2O4ah|uF|EHO8nVh`l!E4`k{)dLOnVqcW{3KQ!eNnlrP7*LEyYv5u)jfxkjl^wp
z2Au!rv$u0Q|8F_1^Eh(FqLbIj20Wh6`Kx1M0p~YC|ANl{Nfuei`7_@^Ji?2o20Ph@
ztqME;J7T^f&TopxSb^tk;xkE8ycOd7Jz|wm=l``WeIU&FTdnZo&To_SC7i#EhLv>k
zk_Ya<Z*f~GCtGkxX(xYTM7Z;J!#N|I|0mUqk<K=)NNdS}GS2^`)3=<H#>7uir|3H6
zsUhMV6`b_Lz@v&zcn3c`od5lAW@YDpxy&2wq!#Jzt2p_N8<$pd{${dsb?1LEd4jsB
zJXgc{op4f3=YLws!cCDu?E7P!^u&gBozTB!dwu6`VpqNIWFhyx-O%ZWkASS>K&!BL
zBdQ!9<9uA+*hxEXtoniT_xYbUasEVAs;ToQlu6iw>ryZg6Ph`H|8N!06E|q?{O^LH
zEu8e>IeqyvXdGT@=_CRxwssOk|C6q596ge+(`~6LEZENZU#I%ue&Sm=2sgB+b7Dvb
z=l>c`M6J?y;;nOD#?OggbaZkMKkelFDLVc`CpU<<;B#Eq+1@uVflkQ#r9l_#T(3~a
z@2;+vf#Kbp6eg!nQ6HSUhhJr~1t$}i?dkl_al0`K*L~j0NqyY#k&UL5-cG`4g4unY
zFp}l_0Zta<o<Y<wwjb;y5XHeiL#PTYJ<OV*%y7%$Wn4sh(g@m;7e<Y=;rIn=XRH%&
z{zv4OxQuxHCr-ZN`lh3t{}KDuXd6|7#yF`%`sA@r!tmrc%V^4Y>OT(&wI^B|#j`Wi
z@qc2n^FJVlO|g=7ok~@bK5QDDP0vqv5`(R0IvInDW|2WGJjeOJfTkrmf9G=(8<4TM
zx#m*T#qJ(@T;E_GIX})p!%v;Cph?~Z&i{`0`ZMS6TuOazZ9D~apU`$8FUBOyiRZ8Y
zK15xF-dSY5ygk+<K7f5N(_-iE0Y~BvM%5$KjI9qWW%zNBg1XBswu}i0o8yPL2z8xy
z%dK;^z`4XLa5+Y=uoqv(YQ*7RI{zb9Z>&MQ7j>$3E1kb;#-c92<5Lan;Ghx-_pm#L
ztz!J*EYwwOAI4+G)eIZ#g`xO)s{2#DgEdLdw#G`<67@ODP&@Bw?1KHivYI)ITpy6&
zwU*Esqq$%mYKCs1W~k^o=YQRrhB^#$tamaBr{HMJw1FuWXQEd5A=F{|&eyi+bVqHv
z-B<#jqFx`IOz+qAzZC~@B%DRPAY!9spbcvJ9MlcUZJdjhHd&LLz(0tK@H0ra=|SIE
zdR5eY!c4r0&rqA{@)l-79KY4cSRBMkmOenIOW`1egf#Sw>G&EGNuR#c`8%Gsc3Xz3
zqpo_xa46SZ-@|yu4&ORCrT3w>^{Ks9V|l)#FL3=*%#V-1x2DOm-}*><3<xK_=3pN;
zCLgegXV4E$dK2GA{UX}op!0tZBx6V7JcpdWIURvhiO-;Rz7G$xdg3zFwsuFX_jgC;
zdif38V2h*n+^>%^{<SLHF)R55oIsrOxK+_&)J|3ON9%-LQTxCl)L~WiCv!dOXen^Q
z7OBywFUoq-?(dBwiIcH9M*i$*FFNDT0V`4eGd7G)qjsv`Uu=q9j{3rgU!B~drdHr6
z;u*i$vYX|cb<$+i66ZZ{jz--X-9)`U;(|>)$*99T)9+Su(E$#IkZ>f`S{LobyHIPQ
z?jM$cpHMqh?Mqg&uTY2Qo0siHjWC{g4r)oCpcZ7{73Y7%dWO0c8+g_EAEOUpE8;-@
zYfjQq8y{mRj=bUgKgoRgm+jTA-Lw}^zr~cS4@Ujv5_Q|Eb`}OxGiUHUe0InAU&G4Y
zbN-)VDq(A`FZ?&15J#ZK3vj>ozsDRTld%0EB_RVnA6c(Wequ9N&@(5OIbRzOW9UD;
zfEPW$oy7k<cQT%MbBgo-gj4xnCvOlpeQ6nK^~&skg-Gv$|KYv~uO0vQoV-+-f53(#
n)y=8ypPfE*#+XH+TNj0T9mBnfbK|@_6CT8QTOY)^yQ}^W{rLd|

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index af0b3b9..d265adf 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -653,8 +653,8 @@ msgstr ""
 
 #: httplint/message.py:289
 #, python-format
-msgid "%(message)s can not have content."
-msgstr "%(message)s にはコンテンツを含めることができません。"
+msgid "%(message_type)s can not have content."
+msgstr "%(message_type)s にはコンテンツを含めることができません。"
 
 #: httplint/message.py:299
 #, python-format
diff --git a/httplint/translations/messages.pot b/httplint/translations/messages.pot
index d5e3c71..a6df167 100644
--- a/httplint/translations/messages.pot
+++ b/httplint/translations/messages.pot
@@ -508,7 +508,7 @@ msgstr ""
 
 #: httplint/message.py:289
 #, python-format
-msgid "%(message)s can not have content."
+msgid "%(message_type)s can not have content."
 msgstr ""
 
 #: httplint/message.py:299
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 2a1fc91fc964b17e2461ce347ac60013dd430829..bb5637273594981aa8382629c829fed7ada333b3 100644
GIT binary patch
delta 10060
zcmXZi2Y60r8^H1V96MH8HEM*|BP0zXc7oV@#H^8`Mis5Sj;g&!Y(<R}HA>A=v(&2f
zp;k4jMvYoUjq?5PbHCTs%kSLJS<il+_oSzHrMtW<-SkRcVG)^LM5GFC!&3MR^I@T)
zBE_&KMq?kWgsZWiD{>Qu5VtKM(gn|Bd8`yBQV|DWS=@xP@HQ^SVI@TtV6IZ)NmEB;
zD{n1CLb?c%NDN2*lLY?J7tX@scnW!jyh6RM=m#RdVOvbX@+9hWk})TyE-m8n{7}q-
z1<Qyu!Dw<7%=w8?o=6-A3!_9r@EV4ql(U@Y$9#mXkb7k?@@`p=Y4CT{8oGt^@Exk@
zAvLoGgNPSW4OuV=Yv2!95Z|KSU(lm?c{m6|Em2+67YxT0xE?h_%_@s@!2Vc*5}d;+
z#7<R_I>ggZA9yi_YQ<})_x*?QWGHVeW#YO4)j5yr$;}A#j#B*RTv(?TxgjC8wn$p+
zT1SLhliqcyQsU+KnD|INkw&<yKGjQlh6cQVI7>q^P22-h;B7AIP5QmYA{((?6YCq9
znu?HDsg2~tlkpsAr#p_C^H-=<mA#orN^;%~^?aumB7<-`ZsP^%cxx!<_qDV(z1~`+
zJLzTHifqOu?L<Dn=It$mV>{S$f5W^yCx1sW$NQxk2SrE-?<7L=OH0%~F%?TWB4@EM
zruaytBo^;1@`CfNx`@0-+_Wnl3P1js8pEaCs6Eb~?JklTEB2t)upUn4eAb>6mU!7G
z^c~(Wy?cr9pUmeUnpM(#$_-o?hZ<+@V{P96-;llzbrh`qOe6*`B88TmpVLop0MaUQ
z6l-FRe%53iur%=o)Ed5yo>pzq{`R7lSeAG;M&L0F$Ja;)m#_i$pw6f@v>89dmsk;7
z4YW2+#0tbGkZvXEXt%1^1ogQyPz$zy5cRJQmcjPGXw<45fjS`#Vs@E|+i(Wf9BL1|
zfO<aPFtY>d3l<}Dl3Ydlr=%HfP1+o_V3UxkLiPpXC&Q_K&1ta_mZQ#Cjd&SqRoy_n
z;eD=)!g|OgC!<hnZar$re+#6)Kho}xLwdK2N1Y#zqxP|9*a1Vn5LtvHJP!21xklLw
zo1*4)EJoul)Eat<j7%x{rM2w<tV;Y7YDQCzw)rC(wTgS9o?nD5@Cxd4Bga_VcSFs%
zw~m7l4*o*zRB6XrPRn9>;t#O~&c#@~f?Bm9<7}$!iF)4*jKtlj4}OGYu;h4avINwc
zT!WSIis?zt3HIPts8zZEwd#&wA<Q_@GE^Fi61PRIvC*h6+KJ8aIcf&#PqHc2!;-`+
zP_I9OdVRXd)`W2wuH(P2e<1QT=I4Ubs4w~l!!XYjtKzz-=_61}@(t<>FQQ(Tfu33d
z%OfL8x}es;CDiLPPqUK82J|pD@0TArD4-W&O?(qDZo0i-GHM^#gZjYdsC^@BhOKg4
zunO@=ETz|B9{d|aF~dw-JxihXf!0XBmTBnK;ULp2TTEKv1>&2y8}}q~F^-rmLidmh
zNPm^~b3|wzNk(d2dd#H|_!N`y`*|W;u+4ny?ZFE~x)Jw5?MoN21%@o7{<m?^Zy^g1
zhA}20Z~&IYZ!jExL#?TdU(rlB1@~b1V(W|#0#;gL8J&Pd9IAXNOEQ+@CY_?|EMrc<
zQOj+0ow$OhcGm~36!{hB<4!K<OEL7qlB*bEq?cW7HS!XvRoStIA;<Z8-?Cm{<F&jD
zSFN+Te*1dn0pd{`Sc<v+;CD>B_{~N}8n)a-+jBnF`<`i(g!cS19J5ew18@e?VI}QW
z+cG8MY~s>X7x&5$B=0h8yT~v28eihk9ZWiS@CSBF*l?#^mv@)lw*-5U-jwztPvY(6
zfH_3^(%=*DDN+gI?Gd4HQfRNGpGIm=+U}$6$oU&=Lfrg-)m#$l^&_aR0-P^?P~-`5
z!$VBr#MOQl=}3I~u*hYMJR&mGp$wUhiqH{d;xX2G%yXQci9?WnB0&@{9#^6^#cOn2
z=I|3d5D!qy+Pt9P|7;%Vb=GQf1AfHyCC}N`YzAr#7C-MVH?kMAIMiVU8vYYbG^Fcm
z@7#%6GP!8Iv?*!^R$(1{ixgh!T(X^0dW!RuIK>s)IlaI$#O_u00%YtQ4kI3rY{T;j
zYR2+kV<)X`IF^GJ81aYA@nf+w@kwOvkTTbKIUc|-@smHTBoDC+@z@)5NZg4lu>Vbl
z8s@xZ6VW7`Pb|0Xc?(eASB#$MX(#bG7=w-P&@u2l>H~`1W$DEQNH>wD_gGpn_`YpI
zA7DY6AlCz4N=aiL(Lr(RV<sfLLkHkiDMs~BDU$V>NFqMQAvo?i?O&M--G8m^VqTEQ
ziBUKbgI?N9H3<i6{L04jXzV~d=QXv2&rqA-(0_g*W!D=5p1blb)z4uPfo@`lIgX^m
zW&9}M6|y#k=LoeZNet#}oS2l#T*lTmne-h@0=kJ@z?L`%9_Q{D(r*Mg{uEp|z2i4Q
z2Mi-U5w(x(!;P3egCmjL_anB#hZ!AzQL4jaQJ(VyJr0I)un|jQ$zXe6TYQIjI_Ae^
zSOE{B-l)@>&h-_r8g|EuxE8<XMYl1Mco9E)ir`5shR?ArhO%?5f!=Tq%5tzD^@e}3
z6PCzo7fwOF@h^<REL776SQqud!%)w!z~XoU^WqE4hwo>1{QW`&tW7))HT@LwK2IKT
zpd~6u{pP^-7>WZi7tY75xCOPu$FMZM#C%xleMc5MY)mnh`0t#S(FlI#XvRLq2%Le1
zaeu(Su!+v0!A!*UIgx-(a050%Cyyg_u?gnJMW_$hf%PyMb@+vaSlf5P5aOw*HM0)&
zx#zGs=Fe;Q4@7O!#aM>-%RUY?htIGh7RhIAIUeT_|Ag8%+J;)2O~5$f6SxE4%kTK3
z<^+CC9MAka82`m`)XZo6uG>$%h9NK<d+}>V7puGIX^vkNu`175)bUrfN~k4|E#}BT
zoQ$(DWpT&fyUoLf#OINzLJE~|{9zUxX3x2aTEevaT-t&qa1&m`j+n^Lsu+A)iuqTo
zFe=>f_k2B3+i(L`!AIB%BO<JdC!nTp4a84TGn)ScM_OVp)Xsbm^|`O`LyTYyHo&Ra
z0<T~jj4bUr{+@11Y3o#5u_`C-U<?*7<M>;$o>+@`6YB7JiIp+FtaY+PY)rg65ND2Z
z<SkWP9xIVvKH5gt0IWv58nqzzyud+;@^l(*=z*GnnH3!W=kpoVaaygSWn>&`jhsLo
z4Mi$h$>LETyaKc1tw8!))TU}s*<6G*iSJ@OdXZHuVM4%Ds5#DF)oP|W79t*wTBXZT
zGjsv9cjt+*4D>)fza4dW-pA?~8tX_03f2Xi;=yW;JR&_u4M+Emo&?3&181YY=n_Vw
z)O7q$CFSt~VS8jfk#e;h|I<nd7Jc0(M4`U;5b7{}g<3N?>NxV67uG^uHEYy!<SXLC
zm`vQYflg$Mzgi6)Swq5LBu7%Pkt2t30}jJMjU92g@hP4se%{3KcRD91PAcLd%^XRM
zBk>rH3&hQuJN_q`HUSebE$4d#;?Hrs$AgD*pi^tgc$*+9228*Lq)$NY)$33fnd_Jz
zgIih+l}4SCTcMVGB4%@$sPJ>*Q?0GH*Jxu?^b*tw>L_}}Ie5&0PBeMiI{xl<Gfp9{
z*^Ug6!L#TOrw{D~5$!GRfcoM@)T#Cm>hm6=_JLe9{6TDl+EiIP+7!PM-zDDNk@2r>
zdYT076bC!8>hZ#D3CvK$M?SL7co9R1vvsy9HX8LsEm6})p}uehY7JaKZIU!ytP^L#
zWyIxhF*S1u_59#&)PDvJMs~C1bqZ?L97et1A!<&aqgH)TcYAR;97~*lIq)y+fNl>*
zTndnYqlmlobo`CUZPe#o{lxJ<Ox_46UN5SU9OXjoWDR<AAvWsc$PkS0>&R(tJpGyD
ze|}s3xg(c|=k&8Rp>Kcs0@p3UUrFCTz?Rts10DID_&VxLcVH09GS`I+woz1thj$^}
ziyUfgKM!>o4j&fSP@u+ZQLFkU>T>+f@W4g|kMqE`s5MrUn$#L-jNg&|9qz|YU)a{G
z;FpfjEu`*f$KMsN9z&Dq{=e=xo1;gJx0&w>>O7Epf+Gj88tMyDPqZc~g_^PMn3V@E
z#|*e*lJ%WKlO6vj)`cmKWFme4RNK0pp5{n6@tx`RzMM0)=^6inIMDGv1{pEZaF)eM
zi8jo7&$h*7CTb_UgJfPp=Gd@ZG1vA3mob_2BJ*q*r(IwZSva=mzHX?C(9ftdXV!%j
zg!fAV2f8XPLVq}-&VYFqS;^y3r_vF~mPz)b_VTA#0t<d+`-jG;i_jO?5YM2#Fm$n9
z-y3zGu^6==C((=LAjJ}^(l{(k?4iCW3H64Hs2K`cYMrn;>Si?RYe(i{UmSz!mRb5V
z)HUQN>V0XJn=u$lJQ%e=3zswgwIsijpu;QE3d>nV)Hd#oIy0_DodJ_kADnHamAo11
z1ms~!+=%({cho-QCfWEeig}5fpk}Bq>hilL$+Ic;FA{XB&G?P&)jq%p#A8uszTj2%
zpg7cweu`T43sIZwXVels4j8rCws1pG3%C`v6W_psm~o8_(@2j4ZKI*6B{+gL@i}T6
zRr%JM<TKO~%}0H}9xR7{2F$(I;^wF|HW{_V2T*I|I_mwY*V%K!P~Ycu<UrT+si+tJ
z5B0&%Q2Ris_131HP#?GmwJCO?w&ml1?`^O+3Uw`Lh1!=!VH~c;aD0F{F)xz@*LhOG
z4x}^ci>IPi*`YxCQ_QC~Y&2sqgt!xGhDV|{#d6dpJc-&QPp~M4Y_h7ag?Wg3V^^Gl
z`E~sN!+|~^`}bDT>Zm0gfmv}g=D?$<HFX`eW{PgM7qvyr@L1IAwxB-m1ZKmRsGa$p
zEtXynHGLrF;{7s}1Ff1hs1Le?{V?6uz_`cJ#QX7QthLSYzl>zwZWGBGOd$O^_Q5tg
z9O;k8Q1|<>KiKwt4-O!1w$rBkqv+|()M=L^ALCxsUR?A?n?OFnZ;5weUHo{rm0%NU
ziLRnnagIH<S&hY+#2c|S*4S&qZE?U~Q8N_0&+-3qGIby0U)TNRtQ6|(1CIZDe%w!%
z<CX_)>b;B0IbZ#dBl8`0w|I~Ei^GopW#rQ%j{l`3`%%aLx|M`iIse`<cEeo%1RoHm
z|HYAo_zLroKKBIU|2q=4oOJw8CtXiDvQIBO&Hf#K!3F9W%SgBX+2XMm2a+Cg*7k^V
zup4ofbGCyTh8>ABop)p%_QsQ#=U2<<ecV7i%)8*oryPV`w5fC<_8=~O$=2<~*n#*3
zYTLHHY`^u625fr8@jqZ*LhUm(exnmpvK`ox_@Aqe{|Tr5?}49i$&S1seIA}dZ|*gI
z*>FR*KkOIIch~JV+rL<j^!0z*Uhw7(Tjl!QbmR+e+>2AO+AZrFr*Q{y?%R&g{Bj;s
zxolMKFwqb%x@XJ#(fd||L4W&;o+sTn7{QIZQAb1N2mDaLAMqvzKXm-hbI&o9xbq{M
zlE-2U@lI@oudy+<c<lHenUe4#am6Q&e)y8C|JdkxgZqgOJ>|;_{ZA%5v)-HPUmMT;
zQAfj4oQ7#%*jzmib@91|TD2iB9sh&k09;C(;gutw;X0gz`Ci*_UW;3ZFQaz88UNV?
zRPqf?swGb3;B!p%);5iUu@3QTJdQQR^%tWoj_XgQUtvSiujAJk>AL>5{VZ-K?wZ2&
z_j<Yb^C{g)D$)+MF>4xEg0OvB*Z&)E_jE3Q|K)};L9X9R8>e^u_52OSlRhVdEC1nr
z)bV~dqwANjP$pM;63+{mGP7&n_c1juxQOjIpB(H;2yx|iT>tw(yLVl`sUx$v{w8)~
z7S|Kaz~uK_|GQkvtggQc?!?a*?VTTGcV#b@$>I7R5}%^>-fQo>atM=iS_Z$#<@z5O
zSLSy8RdZAx*Z(!V6?HLsfyJ>vi0iNW4RICmln~GLzj#FDb^X77SImc;=osqy%jg&!
zOuP$2F)F`3uoVUqkHYLY3v=VQs4qH<y52uQ-9O|i;QCX0V;oD3c&N*7YOj#%e{3p)
z`r^^p0#~C}`CHT}wtQjNU%wNu5Ak@^UjG91zNSU&g#%F^yaY8vzhGXxgIa)~qOQNF
zg`sZey=oljMx#AO;LN}U2T)6J5%qyiF}pDwb(M<?#O?82;(n+Z8Hc(zT#NdGTbMwJ
zQxvzV?^?q3cTg*l^PZgHKy&sthG1}*-58Eh#Pv{z-6*V!d$1}7m9)4n>ix4(@85=6
zp!2AE!=O^GzZ_RWy{;STK4Bs@(-~(y2OUXp!|lZ%p_b4?t@?SWTc>^45pSUm&)N~L
z|5a-y>Utl?@3=_pi{)?yF2yU@7l%i>{=D!2bptZAv@5%G{QtqhJX})7^(U6-vaUQM
zo{pN4aZy&aOYv{wgBXpQ%enr{cpt|Rw~2QB8SxKnO<bV7>;I1j!*LC9tqS&>$EX?1
zUXk&?h=WEPEW>-KIh$6=^*5o<P}{z8WvkMjs7<j1HT??K!=NhG%i~e|%p}yl^gZhJ
zf1);7XjMDkDd2>vjDOu6ZX`k5`Z?+YOU0N&P}}Sf>Vt2iwry~%Sp)UKgHT_z9h>9R
zKziM3)}#}$2I)ztedI1~bI5pg&-M3u`)k;6`4=?<S>tT@bqcr;by+=!`l8@kuK#(i
z0cwVRM6HoWs0GSf+j@By)ble@hw~xSJ*CvK_hj=p&<7?25|*G2pSxHM3)i*t-BBNq
zgj!R{sGT!=J?oq?s2S*r`ocu4f`<d9sc#cdP1O7QV`cQ#a*&gf-N8bbs-f#o$t4=O
z{#NQ4YKA&Dw$8HzwfFyop_r+OD`znR|HM>HSp)D6PQXW~znF$Lvzc-g>L}TZY#I3e
z!$EHnF1K(ckqp#}cl|FJ$t_)fSG>KIt!}q*I@b+p?fQR=O5euyH<L&3A?dZ+x}xiP
zbUWAojQ0vPBV#`_r{GHBL`;Dd+G{#fP!<1x@f)x{rs0BSv(gorp0Y!~!F|4*S7h6~
cB2GdnCwlIy7S2pRaops1XWQg>_h6d;1F0Bny8r+H

delta 10049
zcmXZi1$b6v8^H1V97;;*t^s4CMvZ1Ln$fw@B?CS}x|y%Q=#GJOODG}@GGItaD4=u+
z(j5v&fB*a3?{)d{JNI+y>F0URzRU5+Psb;pQOOq|A~S+SD&uAh!RMF<^8||&#Hv^h
zdtxPAg#%rY8#tUevam=rp2qT6wuneY?1!as1J1^qxCDn36<L6pLc}Lc9g$7EHIRhF
z#YIYDA>==4$3ObQX;=u4BhQdmsMqByA#xQX@jDD9QJ-@ev!PQ;#O3)pFg@lD6={N{
z$W<E7k1gX9sma0IG9tO~3I^ai)STxmYc<gfxmN}v@0N9#3@@S9(BJqirlOjjQ8TMC
z1@T;}Aw4d~8n_Mf<6G4GbNeV>P7Z=lOH>o}1w(Nau0zdG!!VH!*cS^^f>St^_&x0w
zK|HC7J@8DpNOsb%px*Z%Mv|dyRcRKk>sOugxQ^U>jlM$^|1}rZs7=mDs8mPfGwc*W
zHId$<E>%jr1YZyztS8b4chnb2N_w&eyny)gh9WV<(U=Hta#0`B?>44+F{+96jpR*5
z$g5OG^5T;*9B8LIf|~PJs8yA&8U2BrN1>i?+k#rb$+&|TB<8IFoR5#PHoewL<bR|W
zZzHl57qk^AfsNW*21ikS`rHec8*_FPdBpoAi~~Bn6zU{GvrALdJ~0tPc)&?4fFC=H
z6ve<UB5yd~ELtQ3af7am4(!~G8pDO%MM#p9{}cHF%k&UAinVYG=hO5QIYGR*7k!8K
zOOM_n{3mnxhh`P`D{kPzaMU<OUu*k1_>uIrsH0#_f3CqZNTDU;05XOBkXDgHSPRn+
zv?gnfrHI#~*2FdRY1QT%WG`xprHN-?aXgI0@HNuGC1|icr~_&ZZNzr?5-Vb}A=bvz
zu>$c?q+3a1+N}!KM}6)T)Pn69O8x7D-;tmXEH%ukb{JMB9x$A-kDGBORvlpv{1f$j
z_K{|5)ECT0<|Mg@^iOePtVtW87Hk|cRY<%)eiB3dYfkfjZ8_?I)rc3PR@HUX8!~WR
z8LWj&a-#QX&8<T%`2~M^hHvctaHMz37}WXU2x=dDjvX-TD3L`t%*TN~IMZl*VFT2h
zj>2-d1GR>pAtO_Q$5`9;!z#r4P&4`oOJb>5tKzPx=jUMyJdgU^qGPS?zeLTrZ!HJ8
zIJkw{sS=H|oEFFO#4WJ~&cdpA9<^$-j<>0{E9!kyP&2R#^}&xY6oV&NleI&w$<-K!
z=S`nvoM;bjhFYa@SRD^yAbvK<G8BTr#F3~q=0knac5IF>P%}__vQ4qWu_*CU)a!pk
zy*}|2Yr=3WrsKbtcR+h!UM@I+`l6>;1hY)FDz1r|J`A-aD^Oo}2KBmR^wh!_ii|Aj
zh*|?@QLj%i-AZ1`?{Lh)`(-Bw`Se1pg>U?Z&#)JaN9_YYqdxEjYTpQ&X{%gEtV}!t
zL-ab#iT5!8lg+Z#vmk08XpZ!2nS{Ow4wBEd#iSWtAijZn@#i@rt#DWzOC|n^^jB#$
zm)Q|7BegEk^BBwc48Ox4zh$Mv7W1vQr(7V?owz4zUpj*=FzZ6<e+LJB7P5+A5M!b^
z_QTS+0*m1V)SCKiF-s{<z<pR~iFL*Ye#<VkjK*S+LzOQRNsA@9NvG%<E2s^OS!t{5
z*i}6BfBK-+^hlh8ySbnj#n20b*U}M5FTT!d<Rwz8vUNQjiSxC-XMw_cKQPzh$_+Nx
zZ~2jVfH-C&waN7fKQUY4icK^NHr-6ybH0*q3lAfq75~KG=hWL^oPu;%NwnRzOw%!r
zIE3orUO9;5U54zWXX9&pi-&emJDBh@djyQwZP#UsxBC`gZ_*pkUgSx9yE$O)kX|(S
zM0|!+f(+j$Lg6G&f~B88YEL5f({|+i4K^WebiitEIqLPpsIGjR4?HCD4{^j{rf}l0
zBa8^*6Ti}Lu;@`btV0=+A7gSMVeE0%c+7G_WI7H)`iUf=c#*gawJBbs<1&Z;&I55T
z#jL{%a{p=bNcS^Vlk4$It`9zITeB&sH5hn~OyX`#?@))OY4~0wM9}rMcWy^5**k23
z4K7*+R$>J4Tcq$(<C5*1l2V+P#2-<2PXAsJ`GfewRWeO{>YB(%;(pg{cs@bRSk4=^
ze#j^e^hJgLwmE(jb|F57%pFqfCTl+K#WC3JmX+ioh7ymu&9sZ#aTWHx!~ZbjU7Lu;
z;e6tEsLzYLXYb2@pZ3>IGMt04SnmNn6HlW)Apb)aAdEx0i8Oe`rU6qvCbN|60p_O(
zGCifah$}v4ro>Gzn2_)`9e`UUKh;B}NSarSFno-|arA52Ka2}MytcNh_(o(rCt~m$
zO!C%ds&P0><99Zmeb|9`=6kkT_#Cwf_J0teaI)hg|M1*ppO{rSTuz{y*ddN1$#F41
z3V4OAN#t{cT9oAs=1iOzm&9Dm*7iE-TbTrO6B$RtX2B!e9Zvf76pl9q2c&eoCTNXC
zNS}_{N8*v8E=f~4Qj+_2VoQ9O+VK{p8cY`DIp5#M!3Yk1z@iwO#vT}nX^AIeUR;b7
zFah<(cNl`Dnck{l7p#bDa0@TGi6x2W@v|ogk6}T4fo(7cJJ%ZM8_Gdx4)&nl@DFyv
z0vYYX38**T!ZP?d)l>p&qCR*C>iMNu2#;cJ{1@|JhRlw)Unq@rh)1KQA4lHjlSdqA
ziE>lFS+ErbV1LYxb1)<Rgj(XmSPEZa9xRyEktL2uU93ucKbvK=Fh6rNW1X=$PQe1W
z$L}p{qH}0UCgS>>XopR3JvPGkSQqQ(bR-APLw&$jtcRCThhI=GYx}mCi+Cbx&8$Uz
z?kQ}JIdj|n{ZX5AK8EssiRVCb_#8W8-aOWpV{k6<KGePu8DMP|i#3Ul;x7Cmuj7rH
zqqv;73G?qT{0GZYGrjp;_Y3iAhCmE<=huubR(H^+IerynRh}`}@m966s3osd(2*fH
z9%thx48z%l9BGKBk*PxR6n4B}ma>RF=LTvC6Y+Ct8y3LLcm+G+bbeNa<FgRvU#-Ft
z#T;+X*A=x5*JEXTge|dfajW83)bvgM_!(+ObCz%<3cI6r<^<H|zQT4`m@(J@Ct?dc
zkFBw2DWBu*=_Zu2PPGZEaN;(GV_>M`ZOOV~ZQ>26!{;SxO*AQOooqTbCf?<bQ<QP!
z6IC3Fl}HaQXQQhhRwG`8T9CUw|3QKBbQ*4mM$N#~3Xb>l`8U*Y8dlLVG8(l;j-rl+
zyp^nEO;8`a6f@)B{`9w~O;sn%oQJiD?_ebQidMFSSii?nbDXY<)l4G{Bp!-drAtsV
z^e1ZX&Ju1Jh(<lX1$B7d!|Ir$sv{jJSVwG%3Dq2VPI~$pj_w_OlBA|Ra0cp&&SE)y
zhxswImg8+oTOsR-l&tM|pH>RgalCy(3Dg(wM;)fGP-`ZAgd^{HVKvlMvr0Wj784)9
z>%^TJ=tRc&tJctw^&|{LawNGMIr1y6$B{Uou_F#QKErdwFPb>sPUk4aNkTlRnIlPY
z1RlrH{<vXt$NR?9!f!kLjPud{_$!>?<H3VD(5dxP3!5OyM4IhThi5EmuU?6|$Xvv{
zm^8|2s37W;+z_?o-(V(}4JQsDKHSQBdxh3EMaQ8|PzmTO#KAodbfQV$#_@Ky>v1Y^
zrM6^*3?4(R;^*z`1qIq$+yeE*lTfGHc+}_JLG1%+Y4}4}6Lm|MvZGD$3o#w>){cyS
zZPOzpXs6iSiB*pmZs^PmMZE7z>x?HcfH+kbtC0}Y7d1dlABy_I1*kRfJ8F}Bz+g-q
z?RcBlqPT>bIfZ(@Pj~7+6$gX6+wwXFwQBaFUT_CBr;kyqUcWHui;LnoY>B#P{e>Oy
zKXfTT%N~x5CT`Qy@ir#cP@i|Em*ahyyzKXtkAo8AC~a@+WYzm{ArGk8*OB2^zn>$g
zx$#JU$NT&?e}E&Gh^Gv+HKE%e`U2O*;d#<`4z^`>#t=vTBEE<^)9o6{vdncEhS?|z
z<>Aq!`+`SU+fPGXh66|1MA88@UV&QTE2ztHvKV`DK0Lt#o1oTME^1P1pcei_`giyX
zMvbzqSGF;Z&@Ci9*70`5OUKe=y8jO!Z*%m(2{!ZnfjSSQo9M^^EQk7n_ozFd{F5wW
z9WWygoR6t+<7DeQ@lzb{C)V#%9r>K}ozwhVx9N@)BfdVv-j`;UHa+A2D-LwLk3dF@
z)R=AYqB%CqqT_6FnSk2Kt|OV340CPRE|_Qgfzx=M^qk+?@clU7CbGZ<l$`t8qb@>w
zP-o7R3n>WimzEspsx%9=s_&uBfaw=m$?Ky|r2~;Ilk7z8<qxqiW?O9ghgztM&=72h
zzoNb{^Afv08g-vB2elxF&{vg%HymhNS6pg2AB6g%MW{ENM9q*k+zTj=+7v~WJ2DTu
z;aL2Hnm%@g4ci3N`#$(Bv(koZAJhWPT*>&?lAI+$hgafNma`J58Hz@o8JD8Yfag#b
zr&O!0<PoS7&>$>|YcMaKMeRfXp^pDt-`S?LHfn~tp)SA6w3p`N;4c!?L~CrX7K9Ut
zN21PrN!QwgDxzkz3u@KRL~XJ?s3p4Rx5zr%!u3Th;18&s_%iCEmT0{V(_kM5+D83Q
zORx`X;bYV`3jN-iq&sSfrlUS!8<xdOe$)M6ab46J8;!Yf7ix`MM7{q#>T~mMu=n{Q
zIneby7WKlTs1JUG+6VIgXl)vW`oLMJO|cmR@Sfik8!aw^x)wCV0yq?F;!-Szw=o-L
zWRl=IpA@$PX^r~gSkx+u_oqL^JbJ?>vkdC07=@bQ!Kh6!AGHY&p*G2V)V9yC*{VJa
za}q~mR~&<Rb^JfzKp&8Li<PuIY6%BoMqH0sFafouE~3^<uC4Z>Ca4)6iF)1lsLwly
zneZ8EXHK@w(yOAT_r~lx{$n}Ns#%8mpi?*yKcRN2f!iI4#hrKr!*)3KWn`yKB+IZf
z>5s85Hs0mPAl#2JSoUYzzHh_9#1Xq~%1=O_&P-A9j&#HAs4vX5$0m@@_&xC^tc&gT
zS_#&omgo#>6@R|ZHmhZE7V#Qvg%uKPxXtnV8)}A<?svSuoW$;D{Oh_upOr$Le8BO3
z&&M3J95*;*Q|}F2$@%h!9bs0LtN4g`$ghs~Wu(hd$NRF8`k3Q=-CBg#IG^G;yJ4=s
zk57r6-yB(p&oL+IQ-5dt|3t#~Cmrw8N!wG7?AHrVvwz0}xIq2GGSdD}TRgVo5YjW8
zu|47x>`t8gtnHxsV@Kk|=N#F9(RdQmpSO(O#Er!LeHR@0ii5ltZ7Q9KJ%|flvUPh7
zb|8L=+O~}@+i$%DzjdxS-UrN6sC}lwRXQ;x+lW!b53V`hC!A`3S&hEMkEBn#?s(q^
zeN%7n%Z3};|82i;zPo9^*`8oo(pTNGz2KGGw#xOm<H#r;upOsixx3akj^HlhboU&g
z`Q-#AaoMOmV4@+O^~jd@gvVBc^2A&8eA1qSueot6>S!qSlphMX1@B<eXO8!I?lA@s
zw|;I@@<<FP-h?gj1vbWdFC6b9(;~b`T;d<c`zDm~UmHFD;xDAfzvRmc{ZD+atoOcq
zZR5G;e>NKC;&d+jh;?w<8(VzNqgHK(w~qHgu@^2QcHcSDA6MdJ%=F%d^9tNXd>Xa$
zjsIX1P`-~esg`&W2LtdOj>bNp>?6_(JV9JZTyHT-?zrAmIvX33ei4^ru<Lr;_G7q}
zxNRcW+v}y}&!==JDM35b!Ia5dNrBBjbG^R-cS!Dv?-)0XNa1?Dv{p*jThIT+NYbaI
za^(ZwL>=!pQoCLWvw!YNPvU8Q-=g;Zu3xy`=Jh1DB|ewNm0Y~AR9e^jKF~Cs>os+7
zde_^;u1W9uL^CitgX?{lYmm|PeriSW^W_xjtunikfQ7QS-iO48sJ-`mR#y(=xonof
z#o1l&1LMLRuD7}k&FOl-hJQd^jGkg4%$m#f*8Li|mUv7qpX+_`D3aUt{`y@a4{{<h
z!1b2V5jc!^GX`Lhy!OC`n1*;LX2yxAKR%bEzGyG%dVe2v|ByDH>rL&oa2z!<2z9xC
z@8kPvBMu4$+KY!{3*x1yRsIr#u~-4uTfbYP&I4bg_WGx&8Lks#FYJx_;5gI_9l+dp
z9kl>-7H?6@i@KfnmE%A+1kJHHPVir_3$+9%Q6Ko)pB`Ay^;WrxsH<ahOou&CGZKTk
z2V8;rf~(k>62HO9#BB?^-VSOZa^5Gua-cc8g}E?k5xX%E%Me#Z-SZ8_y0{IipcJ(@
z9QFRmsP}I`Ezk+ny`hA--f~<L^}6<$55K`?I^(S3pd$(Yq2{<%F)QI9)T*C`x^>!t
z9q}qgVCCYj_f=~G>Uv+1-*F|e8<xcdxD5ZmemJ0{>&*+dQ8ys{O1ToR<NpE&-(p;-
z>rE^nrCoVNJPvh35mUyhb}l|4-i_sOeOcF=8E@iv;>P7%Z$`X;t%$RhcfJ4P!2n!O
z99F@ea}PCxsVg%67jaONgBAEUYR<-1a=lIHBh<Dp6=qf13AHKWP}BdwdMK5xm)A$_
zGow)Z(mK@ZFQGPB<|=kR%CD~q<6k$2Ye>+xevJCS{NZL_)HaJpeegBZwoO{qtbqF9
zuTWp~BR0o}{`Bx_)}-HH4bm5(_K_R7!{MO1&-M0tJ8Rf*d4igOlr?SmMfshHx~v{Y
zeNocduJ?JaI%<Ztpw`G;)B<I!W4*i$>iG$%!#N&x)VxA{Pby!8J+LKeLLBPwxq;O%
zM_oJL0rdfkP;2TOYUfN{&pKxr)C{ymec>e3;kMWB2Mi&uRNwCJiDAUP6&z%vWY;ke
z-!*W(DLJ5#>useTp=PLcW9vL|sJ;JZ48X)qTseaU@D{$qq<FolEn0U`e=+rIW;5jy
z)KRh>*)sU#J_mhBINidPIb@(}r0adjI2Yx5yW$^P+Uj-<XK-ELR<8HQD5tgSZ6^2O
zGt$G_xbh2zv~|7Dc+XKYGP0dH23HeL!bDiSy{0qZL%jpWuit8zj0+-WCl8u2W=YVF
aB|%Q75U1?iNN3jgd6CYJd6DkHWd8@()@t7X

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index dd1792a..2a7291b 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -629,8 +629,8 @@ msgstr ""
 
 #: httplint/message.py:289
 #, python-format
-msgid "%(message)s can not have content."
-msgstr "%(message)s 不能有内容。"
+msgid "%(message_type)s can not have content."
+msgstr "%(message_type)s 不能有内容。"
 
 #: httplint/message.py:299
 #, python-format
-- 
2.43.0


From c6c0eb6ccbe49d7a34fad046736e4b43b469da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 05/67] fix: report JSON that nests too deeply or has too large
 a number

---
 httplint/field/json_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 6408a8a..c72beeb 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -25,7 +25,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value)
-        except json.JSONDecodeError as why:
+        except (ValueError, RecursionError) as why:
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
 
-- 
2.43.0


From b7bd618b5af9dd2a9f93b30fa819e8e3e6876722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 06/67] fix: describe boolean parameters that are false

---
 httplint/field/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2098d58..7e0bb8d 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -270,10 +270,12 @@ def check_sf_params(
                 else:
                     param_list.append(f"* `{param_name}`: `{param_value}`")
             elif "desc" in known_params[param_name]:
-                if param_value is True:
-                    param_list.append(f"* {known_params[param_name]['desc']}")
-                else:
-                    param_list.append(f"* {known_params[param_name]['desc'] % param_value}")
+                desc = known_params[param_name]["desc"]
+                if "%s" in desc:
+                    desc = desc % (param_value,)
+                elif param_value is False:
+                    desc = f"`{param_name}`: `{param_value}`"
+                param_list.append(f"* {desc}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
-- 
2.43.0


From 353e84ab0fe26baaa6d4aac513f80600b2675c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 07/67] fix: cope with field values that can't be split as URLs

---
 httplint/field/parsers/link.py                | 5 ++++-
 httplint/field/parsers/nel.py                 | 7 +++++--
 httplint/field/parsers/reporting_endpoints.py | 7 +++++--
 httplint/field/parsers/speculation_rules.py   | 7 +++++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 97d4653..53e4fd4 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -58,7 +58,10 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             for token in rel.lower().split():
                 if token not in hints:
                     continue
-                scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                try:
+                    scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                except ValueError:  # not a URL at all
+                    continue
                 if scheme and scheme not in ("http", "https"):
                     bad_targets.append((token, link_value, scheme))
                 else:
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index f62c1a9..3b965da 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -19,8 +19,11 @@ def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
         url = item[0]
         if not isinstance(url, str):
             continue
-        target = urljoin(base_uri, url)
-        scheme = urlsplit(target).scheme.lower()
+        try:
+            target = urljoin(base_uri, url)
+            scheme = urlsplit(target).scheme.lower()
+        except ValueError:  # not a URL at all
+            continue
         if scheme and scheme not in ("https", "wss"):
             continue
         valid.add(name)
diff --git a/httplint/field/parsers/reporting_endpoints.py b/httplint/field/parsers/reporting_endpoints.py
index 26d4494..2bfed81 100644
--- a/httplint/field/parsers/reporting_endpoints.py
+++ b/httplint/field/parsers/reporting_endpoints.py
@@ -35,8 +35,11 @@ API."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not a URL at all
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(ENDPOINT_NOT_SECURE, name=name, url=url)
 
diff --git a/httplint/field/parsers/speculation_rules.py b/httplint/field/parsers/speculation_rules.py
index 63e990c..9eb6830 100644
--- a/httplint/field/parsers/speculation_rules.py
+++ b/httplint/field/parsers/speculation_rules.py
@@ -35,8 +35,11 @@ point to speculation rules files."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not a URL at all
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(SPECULATION_RULE_NOT_SECURE, url=url)
 
-- 
2.43.0


From 30128a6de93703f7f300b8ab60669c1e9051a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 08/67] fix: match parameters without exponential backtracking

---
 httplint/syntax/rfc9110.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8cf0720..f4bc2b9 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -121,7 +121,8 @@ parameter = rf"(?: {parameter_name} = {parameter_value} )"
 
 #   parameters = *( OWS ";" OWS [ parameter ] )
 
-parameters = rf"(?: {OWS} ; {OWS} {parameter}? )*"
+# This is arranged so that whitespace can only be matched in one way.
+parameters = rf"(?: (?: {OWS} ; (?: {OWS} {parameter} )? )* (?: {OWS} ; {OWS} )? )"
 
 #   qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
 
-- 
2.43.0


From c63a22f6ffd5a47f5c9c918c8b32bf9db2eeff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 09/67] fix: match CSP directives without exponential
 backtracking

---
 httplint/field/parsers/content_security_policy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 2b8e4d7..104f618 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -14,10 +14,11 @@ from httplint.types import (
 # directive-name = 1*( ALPHA / DIGIT / "-" )
 DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
 # directive-value = *( WSP / <VCHAR except ";" and ","> )
-DIRECTIVE_VALUE = r"[ \t\x21-\x2B\x2D-\x3A\x3C-\x7E]*"
+# This is arranged so that whitespace can only be matched in one way.
+DIRECTIVE_VALUE = rf"(?: {rfc9110.RWS} [\x21-\x2B\x2D-\x3A\x3C-\x7E]+ )*"
 
 
-csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
+csp_directive = rf"(?: {DIRECTIVE_NAME} {DIRECTIVE_VALUE} )"  # pylint: disable=invalid-name
 
 
 class content_security_policy(HttpListField[ResponseLinterProtocol]):
-- 
2.43.0


From 3de2eeb6f03738c3f84c57664ebcef29955e0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 10/67] fix: don't show the catalogue header as the detail of
 notes without one

---
 httplint/i18n.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 37ef2fd..4c8643a 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -35,6 +35,8 @@ def translate(message: str) -> str:
     """
     Translate a message.
     """
+    if not message:
+        return message  # the empty message is a catalogue's own header
     translations = get_translations()
     if translations:
         return translations.gettext(message)
-- 
2.43.0


From 461fdbbb7a286aa5190f62f2aa2c149aa234ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 11/67] fix: match mailboxes without exponential backtracking

---
 httplint/syntax/rfc5322.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 24c6111..bc71f36 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -27,11 +27,13 @@ ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-ccontent = rf"(?: {ctext} | {quoted_pair} |)"
+ccontent = rf"(?: {ctext} | {quoted_pair} )"
 
 # FWS             =   ([*WSP CRLF] 1*WSP) /  obs-FWS
 
-FWS = rf"(?: (?: {WSP}* {CRLF} )? {WSP}{{1,}} )"
+# Including obs-FWS, so that one run of white space only matches in one way.
+
+FWS = rf"(?: (?: {WSP} | {CRLF} {WSP} ){{1,}} )"
 
 # comment         =   "(" *([FWS] ccontent) [FWS] ")"
 
@@ -39,7 +41,7 @@ comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-CFWS = rf"(?: (?: {FWS}? {comment} {FWS}? ){{1,}} | {FWS} )"
+CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 
 # quoted-string   =  [CFWS]
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
@@ -71,7 +73,9 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # phrase          =   1*word / obs-phrase
 
-phrase = rf"(?: {word}{{1,}} | obs_phrase )"
+# Equivalent to 1*word, but adjacent words only match in one way.
+
+phrase = rf"(?: {CFWS}? (?: (?: {atext} | \" (?: {FWS}? {qcontent} )* \" ) {CFWS}? ){{1,}} )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From f8aa18be3ba1a06302d40fbe12ba48f1dc78ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 12/67] fix: accept all comment text and trailing white space
 in quoted names

---
 httplint/syntax/rfc5322.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index bc71f36..3f927fb 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -23,7 +23,7 @@ qcontent = rf"(?: {qtext} | {quoted_pair} )"
 #                     %d93-126 /         ;  "(", ")", or "\"
 #                     obs-ctext
 
-ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
+ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
@@ -47,7 +47,7 @@ CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
 #                    [CFWS]
 
-quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* \" {CFWS}? )"
+quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* {FWS}? \" {CFWS}? )"
 
 # atext           =   ALPHA / DIGIT /    ; Printable US-ASCII
 #                    "!" / "#" /        ;  characters not including
@@ -75,7 +75,7 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # Equivalent to 1*word, but adjacent words only match in one way.
 
-phrase = rf"(?: {CFWS}? (?: (?: {atext} | \" (?: {FWS}? {qcontent} )* \" ) {CFWS}? ){{1,}} )"
+phrase = rf"(?: {CFWS}? (?: (?: {atext} | \" (?: {FWS}? {qcontent} )* {FWS}? \" ) {CFWS}? ){{1,}} )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From e89a554192b5a94354a5f25985ad4526bb572afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 13/67] fix: calculate the age of a response with an invalid
 Age

---
 httplint/cache.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1b3adfb..23d83d5 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -21,7 +21,7 @@ class ResponseCacheChecker:
         self.store_shared = True
         self.freshness_lifetime_shared: int = 0
 
-        self.age_value = response.headers.parsed.get("age", 0)
+        self.age_value = response.headers.parsed.get("age", 0) or 0
         self.date_value = response.headers.parsed.get("date", None)
         self.expires_value = response.headers.parsed.get("expires", None)
         self.lm_value = response.headers.parsed.get("last-modified", None)
@@ -130,10 +130,8 @@ class ResponseCacheChecker:
         if self.request_time and self.response_time:
             response_delay = self.response_time - self.request_time
             corrected_age_value = self.age_value + response_delay
-        elif self.age_value is not None:
-            corrected_age_value = self.age_value
         else:
-            corrected_age_value = 0
+            corrected_age_value = self.age_value
 
         corrected_initial_age = max(apparent_age, corrected_age_value)
         self.age = corrected_initial_age
-- 
2.43.0


From 6284cb4c9de441960511996dfdf62f2cd1deb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 14/67] fix: limit delta-seconds to the largest value when
 calculating freshness

---
 httplint/cache.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 23d83d5..2a5f6c2 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -9,6 +9,9 @@ from httplint.util import relative_time
 CACHEABLE_METHODS = ["GET", "HEAD"]
 HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
 
+# Larger delta-seconds values are considered to be this one; see RFC 9111, Section 1.2.2.
+MAX_DELTA_SECONDS = 2147483648
+
 
 class ResponseCacheChecker:
     def __init__(self, response: ResponseLinterProtocol) -> None:
@@ -21,7 +24,7 @@ class ResponseCacheChecker:
         self.store_shared = True
         self.freshness_lifetime_shared: int = 0
 
-        self.age_value = response.headers.parsed.get("age", 0) or 0
+        self.age_value = min(response.headers.parsed.get("age", 0) or 0, MAX_DELTA_SECONDS)
         self.date_value = response.headers.parsed.get("date", None)
         self.expires_value = response.headers.parsed.get("expires", None)
         self.lm_value = response.headers.parsed.get("last-modified", None)
@@ -157,12 +160,13 @@ class ResponseCacheChecker:
             self.freshness_lifetime_private = expires_lifetime
             self.freshness_lifetime_shared = expires_lifetime
         if "max-age" in self.cc_dict:
-            self.freshness_lifetime_private = self.cc_dict["max-age"]
-            self.freshness_lifetime_shared = self.cc_dict["max-age"]
+            max_age = min(self.cc_dict["max-age"], MAX_DELTA_SECONDS)
+            self.freshness_lifetime_private = max_age
+            self.freshness_lifetime_shared = max_age
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
         if "s-maxage" in self.cc_dict:
-            self.freshness_lifetime_shared = self.cc_dict["s-maxage"]
+            self.freshness_lifetime_shared = min(self.cc_dict["s-maxage"], MAX_DELTA_SECONDS)
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
 
-- 
2.43.0


From fed547736e888b2c077f9c3af67806aeb9568007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 15/67] fix: match only the names of fields and their aliases
 to handlers

---
 httplint/field/finder.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index 9150f54..ff0bcaa 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -9,17 +9,17 @@ from httplint.types import AddNoteMethodType, LinterProtocol, SectionProtocol
 class HttpFieldFinder:
     """Finds the linter for a given HTTP field."""
 
-    # map of field name aliases, lowercase-normalised
+    # map of field name aliases, lowercase-normalised, to the names of their modules
     field_aliases = {
-        "x-pad-for-netscrape-bug": "x-pad",
-        "xx-pad": "x-pad",
-        "x-browseralignment": "x-pad",
+        "x-pad-for-netscrape-bug": "x_pad",
+        "xx-pad": "x_pad",
+        "x-browseralignment": "x_pad",
         "nncoection": "connectiox",
         "cneonction": "connectiox",
         "yyyyyyyyyy": "connectiox",
         "xxxxxxxxxx": "connectiox",
-        "x_cnection": "connectiox",
-        "_onnection": "connectiox",
+        "x-cnection": "connectiox",
+        "-onnection": "connectiox",
         "from": "from_field",
     }
 
@@ -53,9 +53,6 @@ class HttpFieldFinder:
         """
 
         name_token = HttpFieldFinder.name_token(field_name)
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
-
         module = HttpFieldFinder.find_module(field_name)
         if module and hasattr(module, name_token):
             return cast(Type[HttpField[Any]], getattr(module, name_token))
@@ -73,8 +70,6 @@ class HttpFieldFinder:
         name_token = HttpFieldFinder.name_token(field_name)
         if name_token[0:1] == "_":  # these are special
             return None
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
         try:
             module_name = f"httplint.field.parsers.{name_token}"
             return sys.modules[module_name]
@@ -86,7 +81,12 @@ class HttpFieldFinder:
         """
         Return a tokenised, python-friendly name for a field.
         """
-        return field_name.replace("-", "_").lower()
+        norm_name = field_name.lower()
+        if norm_name in HttpFieldFinder.field_aliases:
+            return HttpFieldFinder.field_aliases[norm_name]
+        if "_" in norm_name:
+            return ""  # would be mistaken for the field with a "-" there
+        return norm_name.replace("-", "_")
 
 
 class UnknownHttpField(HttpField[Any]):
-- 
2.43.0


From 2eeb0d11da467ea5e74cdaceb57b6e2db27944ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 16/67] fix: report notes in the order of the message, not of a
 set

---
 httplint/field/parsers/cache_control.py     | 4 ++--
 httplint/field/parsers/content_language.py  | 6 +++---
 httplint/field/parsers/transfer_encoding.py | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 65ba95f..4dea403 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -139,7 +139,7 @@ ignoring it there."""
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
                 if directive in cc_list:
-                    conflicts = list(set(cc_list).intersection(set(potential_conflicts)))
+                    conflicts = [d for d in potential_conflicts if d in cc_list]
                     if len(conflicts) > 0:
                         add_note(
                             CC_CONFLICTING,
@@ -148,7 +148,7 @@ ignoring it there."""
                         )
                         break  # only show the first conflict
 
-        for directive in set(cc_list):
+        for directive in dict.fromkeys(cc_list):
             # wrong message type
             if (
                 self.message.message_type == "request"
diff --git a/httplint/field/parsers/content_language.py b/httplint/field/parsers/content_language.py
index 6dff857..afb4bd3 100644
--- a/httplint/field/parsers/content_language.py
+++ b/httplint/field/parsers/content_language.py
@@ -26,10 +26,10 @@ messsage. Note that this might not convey all of the languages used."""
         if self.value:
             if len(self.value) != len(set(self.value)):
                 seen = set()
-                duplicates = set()
+                duplicates = []
                 for lang in self.value:
-                    if lang in seen:
-                        duplicates.add(lang)
+                    if lang in seen and lang not in duplicates:
+                        duplicates.append(lang)
                     seen.add(lang)
                 for lang in duplicates:
                     add_note(CONTENT_LANGUAGE_DUP, lang=lang)
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index f4f1366..d9eb3ee 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -46,7 +46,9 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
         return coding, param_dict
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        unwanted = {c[0] for c in self.value if c[0] not in ["chunked", "identity"]}
+        unwanted = list(
+            dict.fromkeys(c[0] for c in self.value if c[0] not in ["chunked", "identity"])
+        )
         if unwanted:
             # check to see if the client asked for it
             if (
@@ -56,7 +58,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             ):
                 request = response.request
                 te = [t[0] for t in request.headers.parsed.get("te", [])]
-                unwanted = {c for c in unwanted if c not in te}
+                unwanted = [c for c in unwanted if c not in te]
 
         if unwanted:
             for coding in unwanted:
-- 
2.43.0


From dcc2255747f7089683b3ab0bc88197f15648180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 17/67] fix: keep line breaks and empty values from ending a
 note's code spans

---
 httplint/field/list_field.py       |  4 +++-
 httplint/field/structured_field.py |  5 +++--
 httplint/note.py                   | 17 ++++++++++++++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/httplint/field/list_field.py b/httplint/field/list_field.py
index 183f00f..3618ef2 100644
--- a/httplint/field/list_field.py
+++ b/httplint/field/list_field.py
@@ -4,6 +4,7 @@ from typing import Any, Generic
 
 from httplint.field import BAD_SYNTAX, BAD_SYNTAX_DETAILED, HttpField
 from httplint.field.utils import RE_FLAGS, split_list_field
+from httplint.note import MarkdownSafe
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, TMessage
 
@@ -43,6 +44,7 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                         context_start = max(0, bad_char_index - 20)
                         context_end = min(len(value), bad_char_index + 20)
                         context = value[context_start:context_end]
+                        context = context.replace("\r", " ").replace("\n", " ")
                         pointer = " " * (bad_char_index - context_start) + "^"
                         problem = (
                             f"The invalid character '{value[bad_char_index]}' "
@@ -53,7 +55,7 @@ class HttpListField(HttpField[TMessage], Generic[TMessage]):
                             BAD_SYNTAX_DETAILED,
                             ref_uri=self.reference,
                             value=value,
-                            problem=problem,
+                            problem=MarkdownSafe(problem),
                             category=self.category,
                         )
                     else:
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 59eac3f..51251c9 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,7 +4,7 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
@@ -54,12 +54,13 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
                 context_start = max(0, bad_char_index - CONTEXT_CHARS)
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
                 context_str = combined_value[context_start:context_end]
+                context_str = context_str.replace("\r", " ").replace("\n", " ")
                 pointer = " " * (bad_char_index - context_start) + "^"
                 context = f"\n\n    {context_str}\n    {pointer}"
             add_note(
                 STRUCTURED_FIELD_PARSE_ERROR,
                 problem=problem,
-                context=context,
+                context=MarkdownSafe(context),
                 category=self.category,
             )
             self.value = None
diff --git a/httplint/note.py b/httplint/note.py
index f73b1b6..872800e 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -31,6 +31,17 @@ class MarkdownSafe(str):
     """
 
 
+def code_text(val: Any) -> str:
+    """
+    Return val as text that stays inside the Markdown code span it's put into.
+
+    Backticks would close the span; a line break could end its paragraph; and an empty
+    span's backticks would pair up with those of a later one.
+    """
+    text = str(val).replace("`", "").replace("\r", " ").replace("\n", " ")
+    return text or " "
+
+
 def _get_markdown() -> Markdown:
     """Return a per-thread Markdown instance, creating it on first use."""
     if not hasattr(_md_local, "md"):
@@ -142,8 +153,8 @@ class Note:
         Template authors must wrap user-controlled vars in backtick code
         spans (or indented code blocks) so Markdown escapes them correctly.
 
-        As defense-in-depth, backticks are stripped from each interpolated
-        value so a wire-supplied backtick cannot close the surrounding
+        As defense-in-depth, backticks and line breaks are stripped from each
+        interpolated value so wire-supplied text cannot close the surrounding
         code span and let the rest of the value render as raw HTML.
         Values that are pre-composed Markdown produced by library code
         (e.g. a joined list of code spans) should be wrapped in
@@ -152,7 +163,7 @@ class Note:
         def _coerce(val: Any) -> str:
             if isinstance(val, MarkdownSafe):
                 return str(val)
-            return str(val).replace("`", "")
+            return code_text(val)
 
         safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
         return Markup(
-- 
2.43.0


From 434f4f7934b25259cc782d4bde3b7a53020db3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 18/67] fix: strip line breaks from the items of Markdown lists

---
 httplint/field/parsers/content_security_policy.py | 4 ++--
 httplint/field/parsers/link.py                    | 4 ++--
 httplint/field/parsers/set_cookie.py              | 4 ++--
 httplint/util.py                                  | 8 ++++----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 104f618..b600d82 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -2,7 +2,7 @@ from typing import Dict, List
 
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -176,7 +176,7 @@ sources of content that browsers are allowed to load on a page."""
                     )
 
     def _make_list(self, items: list[str]) -> MarkdownSafe:
-        safe = [item.replace("`", "") for item in items]
+        safe = [code_text(item) for item in items]
         return MarkdownSafe("\n".join(f"* `{item}`" for item in safe))
 
 
diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 53e4fd4..0253f79 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -6,7 +6,7 @@ from httplint.field import BAD_SYNTAX
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import PARAM_REPEATS, parse_params
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.syntax import rfc3986, rfc8288, rfc9110
 from httplint.types import (
     AddNoteMethodType,
@@ -75,7 +75,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             hints_plain = ", ".join(present)
             lines = []
             for rel_name, targets in present.items():
-                safe = [t.replace("`", "") for t in targets]
+                safe = [code_text(t) for t in targets]
                 lines.append(f"- `{rel_name}`: {', '.join(f'`{t}`' for t in safe)}")
             add_note(
                 LINK_RESOURCE_HINTS,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 675b6cf..8d01177 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -6,7 +6,7 @@ from urllib.parse import urlsplit
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
-from httplint.note import MarkdownSafe, Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.types import (
     AddNoteMethodType,
     DeferredNoteType,
@@ -61,7 +61,7 @@ requests to the server."""
             add_note(
                 SET_COOKIE_HARDENED,
                 cookie_names=MarkdownSafe(
-                    ", ".join(f"`{n.replace('`', '')}`" for n in hardened)
+                    ", ".join(f"`{code_text(n)}`" for n in hardened)
                 ),
             )
 
diff --git a/httplint/util.py b/httplint/util.py
index 2c11c55..313dc48 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -8,7 +8,7 @@ from urllib.parse import quote as urlquote
 from urllib.parse import urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
-from httplint.note import MarkdownSafe
+from httplint.note import MarkdownSafe, code_text
 
 
 def iri_to_uri(iri: str) -> str:
@@ -62,11 +62,11 @@ def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     """
     Format a list of strings into Markdown.
 
-    Each item has backticks stripped so wire-supplied content cannot
-    close the surrounding `markup` span. The result is MarkdownSafe so
+    Each item has backticks and line breaks stripped so wire-supplied
+    content cannot close the surrounding `markup` span. The result is MarkdownSafe so
     Note._get_detail preserves the structural markup on interpolation.
     """
-    safe = [i.replace("`", "") for i in inlist]
+    safe = [code_text(i) for i in inlist]
     return MarkdownSafe("\n".join(f"- {markup}{i}{markup}" for i in safe))
 
 
-- 
2.43.0


From 49b999d1070623a606922b580bf7e7362c2f3c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 19/67] fix: keep Cache-Status and Proxy-Status values inside
 code spans

---
 httplint/field/parsers/cache_status.py |  8 ++++----
 httplint/field/parsers/proxy_status.py |  8 ++++----
 httplint/field/utils.py                | 20 ++++++++++----------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/httplint/field/parsers/cache_status.py b/httplint/field/parsers/cache_status.py
index c7e012c..26c0f47 100644
--- a/httplint/field/parsers/cache_status.py
+++ b/httplint/field/parsers/cache_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -41,10 +41,10 @@ debugging caches."""
                 CACHE_STATUS_UNKNOWN_PARAM,
                 CACHE_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**`{code_text(target_str)}`**:\n{param_str}")
 
         if status_list:
-            add_note(CACHE_STATUS, status="\n\n".join(status_list))
+            add_note(CACHE_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -88,7 +88,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         "desc": "The request was collapsed with another request.",
     },
     "key": {"type": str, "desc": "The cache key was `%s`."},
-    "detail": {"type": (Token, str), "desc": "Additional details: %s"},
+    "detail": {"type": (Token, str), "desc": "Additional details: `%s`"},
 }
 
 
diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 28e4eb2..7dc88f7 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -6,7 +6,7 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -39,10 +39,10 @@ The `Proxy-Status` header field indicates how intermediaries have handled the re
                 PROXY_STATUS_UNKNOWN_PARAM,
                 PROXY_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**`{code_text(target_str)}`**:\n{param_str}")
 
         if status_list:
-            add_note(PROXY_STATUS, status="\n\n".join(status_list))
+            add_note(PROXY_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -106,7 +106,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
     "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
     "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
-    "details": {"type": (Token, str), "desc": "Additional details: %s"},
+    "details": {"type": (Token, str), "desc": "Additional details: `%s`"},
 }
 
 
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 7e0bb8d..4f2eb39 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -6,7 +6,7 @@ from urllib.parse import unquote as urlunquote
 
 from http_sf import Token
 
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.syntax import rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
 
@@ -233,7 +233,7 @@ def check_sf_params(
     add_note: AddNoteMethodType,
     unknown_param_note: Type[Note],
     bad_param_val_note: Type[Note],
-) -> str:
+) -> MarkdownSafe:
     """
     Format parameters for a clause, checking validity against known_params.
     """
@@ -241,7 +241,7 @@ def check_sf_params(
     for param_name, param_value in params.items():
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
-            param_list.append(f"* `{param_name}`: `{param_value}`")
+            param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
         else:
             expected_type = known_params[param_name].get("type")
             if expected_type and not isinstance(param_value, expected_type):
@@ -250,7 +250,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
                 continue
 
             allowed_values = known_params[param_name].get("values")
@@ -260,7 +260,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
                 continue
 
             if "value_desc" in known_params[param_name]:
@@ -268,21 +268,21 @@ def check_sf_params(
                 if desc:
                     param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
             elif "desc" in known_params[param_name]:
                 desc = known_params[param_name]["desc"]
                 if "%s" in desc:
-                    desc = desc % (param_value,)
+                    desc = desc % (code_text(param_value),)
                 elif param_value is False:
-                    desc = f"`{param_name}`: `{param_value}`"
+                    desc = f"`{param_name}`: `{code_text(param_value)}`"
                 param_list.append(f"* {desc}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
 
-    return "\n".join(param_list)
+    return MarkdownSafe("\n".join(param_list))
 
 
 def check_sf_item_token(
-- 
2.43.0


From b63b93209efeea02acf792b089ae78a52e21ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 20/67] fix: keep the items listed by the Accept-CH note inside
 code spans

---
 httplint/field/parsers/accept_ch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index 806ba1a..a6a1e15 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -5,7 +5,7 @@ from http_sf import Token
 
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FakeRequestLinter, FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, code_text, levels
 from httplint.types import (
     AddNoteMethodType,
     CachingProtocol,
@@ -60,7 +60,9 @@ willing to process."""
             if missing_vary:
                 add_note(
                     ACCEPT_CH_MISSING_VARY,
-                    missing_fields=", ".join(missing_vary),
+                    missing_fields=MarkdownSafe(
+                        ", ".join(f"`{code_text(name)}`" for name in missing_vary)
+                    ),
                 )
 
 
-- 
2.43.0


From adbca79678c1adf2f0cbd180a8c6d6008fc2c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 21/67] fix: keep values from the message inside code spans in
 the translations

---
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173729 -> 173722 bytes
 .../translations/es/LC_MESSAGES/messages.po   |  12 ++++-----
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177190 -> 177202 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |  12 ++++-----
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196574 -> 196590 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |  16 ++++++------
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155227 -> 155259 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |  24 +++++++++---------
 8 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 104315dfb75475feaacfac2c68323d292f275f2a..85a989b830aa7175d209eae388eb1e6d929d8aed 100644
GIT binary patch
delta 2971
zcmXZedsNm%8o=>qo)D9?>=+>mL@M#B>8664NhV&1yqls(-nhIHDxe~2rv6fn1lW?H
z^twXk1<mw$y4fMiTCI*|MrpdbqQ~9b?6PjVYT1&Y?RVbsug^R)znS06{N|bW-O>=Y
zu_5fus3>o`h!meTatKf2V66F@kw@_yK7yUj7<m}e@MWyTcQCHe$Wc6lV{!Xg=QUhQ
zJp3H}jmRmC!n@BK$->@$H*zn&^bh07`#iYw8zXs`eZj~nY{1)9r0$<aVt8=RMI&EQ
z|HXGkPGimYM(VKW2O~Xc@A#vU5*+p~BR>4>l98LVU-`F@3B;FwG7@Ur|7+w3^&>AE
zxq;zVJR=D-bhv8dLn=~#HnJW=e=)KGYw&gKbj@}A6gLr9{%T|o_WGZZQap=4U{;fn
zHjFp&HzVta)2<sihd*K&9%?pn0mrtueto?gMvhal536v^O(R<|=655X;6Xfqt3`tY
zrWg(GSR>BoMb)a3OMB}Om0z$B_hC*em5H>+gsR+$MXgmnz*TJP)3gr?Q)x!;H3}cn
zu<Z_&4OC>da|2#S8)x0AvKgB(6Kn6%;5WaCv-w1yw^!MZi5*m4XPm3yD#Pq^5h^d>
zH@FB3I;zy*MXbb?k!p9&llGld`qMFh`80glS!FOLMX8L&<!BGrQOv;3(Jo$uCy5WC
z(7z@|gIiyFpGpVf9kD7`X@CEIl{bm^bWtfGp59I6A-sUIc)xUrQ+b1mrD(UZ#{(KX
z{Z%-d_!tIoV7vxD$q8IT9PqJX?Ao0LU;`e*kRI#^{uP&DRZr#fiQM&|$_}i?S1_p;
z3*!CKNWq@g#NHY_d<lPWD?NfXE4n?T(twqC7^n78X|nZwRVK5t=zc0`Y(jB@N;&b-
z{wm3s_OQwn3=D8PbLA1YQ_TZacGABkNyRIou>Db$K|B~aNF{|h{V|p2@l~wA_`xdG
z_%_;8oSLk`tT~Reh(m{}{EYc%^Ez{wd*PDdD(#3@rMSbn_HjNb@#<8SZg}De_2g~}
zO(RsoF>I8|gBUwnWgw0o<4$k+Sl4mGIF&Kfe>Yy`NnV&Zfr(=o{t*wO4}Zr==$okW
zF?u+SenZ%%^|*PG%45_grh6(QC={owY{3KA7qh0g0jse+aRc_k^O%TjGu$B^f;KL}
zr*I#R!SJUze7q<JdlOHd<|bB(J&4~xyK{{mg;5ler>i7kCEBa@C@#j387c+14DG}&
z;XsU;sWKEZ&<?l>d*Tta6TOBHVAo97J_3UaMVp=nunT&vve<G8KC}a;VMlxkqj48@
z#?LSuzr}ud9qojBXRF+YbFiKjufd7LL;Y^N4QMBF675bkqy0pEW(9Y~lMD(uRFq>D
z{s+h7_*|82+=h0*)=#T+$Ej#nSc;G1UbNr71?>(c<hhmQVjtoPoPqn%z9))X%cko}
zjI;Uw9tFGQ=h0pa5pz_QU@9i#L9D~u=DHW}#1!IFw~Wqr_d*WZd%;(rvKRMaDdrWD
zp6twJv}v3&-`xlIEMN!u{gI6nB562Xq|z0ySg8+Rs4|XtKrwlW6}St-7P)W#E>0%?
z4O{d4_{A;_rz|18s2}}|+v){)hPVd*g2hW!=3wHpj5~zF77BI;zD0W&qnEkEG8=9C
zyO@SeXixK)<!%DY(f&U;h!d~{r{K61uHP;kPW%(j#eQU)o$zL~pQOnn|Lr$Uf6g7M
z{b&!>WwaCNwbJGJQnVc#(7qsUmAfH5OeStbdnltyT;7jEn-#C&02TQf?Lyj?x&@5I
zRN@t-%*6h<9Hzp~G~#*pvpNk&5`R^u!T$lB%iRPvqWvUS(f$|>t#B{ig!V%E8i!%r
z8kHEFjhR@Ew%;YR<0ie}Eb}N#qv9mmi=*$K-05G5w!;auE9+M2(lj0I4y{JJ6Cb1P
z7xkk1wVZ?YUf6fb8@K9{*K&1pMqb2a*s+TAMz4CE`<;Jhz1xXV)h=Ia@d*a{1QW2`
z%PPO(5KN@wfPl&!#DyDFcH^^{jPZYV_eCDsGqoDI6y+nVB#x}*j|csCVq3$xuG{1;
zhPPgIY4bgn@L=s`m9rST#idaT+W&$jTU9Pnzjd2Sr?NVg+leP_Ckt=}hVWc2h7r%*
z;p!J-8)EO4<rpfriL5JW6JOsZ-lXpeJolApADDmK_yWhynaIEw85$9+t3Pwx>~7UR
z&NnO1KR0JaL1w<cd(q6;nQ^{(nF})WZ8^uE<&Q1$FQ8!S{Y&QgvlsevXbMaX(dhc~
lr_JsWVYDoKW}fX_zpjg3Dr`$dc41ClL9VT;sM3gg{tu)x7mNS^

delta 3021
zcmXZee^ix48o=>q9@G+&^r&S@hzOxVsD<SZDhM?pl@wGm4G}JiC?FuIi{6YPG*luH
zZCMOZORdb4XW7zDmS<Pn4k|92A=ZW+TU%?lHA~zq_d9p|>od>HJM+#w@66o$YKwnE
zi~l=8L0*rDtT<!jFW7-`*!a1Thwy70k3-sxjKz7l6>IQaj5=%NQ~U~(@y!nBb*v(u
zdXD}^<O>YK0bd$fh-3a?<PO~SmGR2^Jh;EpNDeMJZ{#y<!&_Bk-`7ThdGO!`BPXc;
z+c!qeVB<fH?8Ma<jYQHu_*)}o`1rq!48xO`jQmD>*LOxzh_8Ncq=#+)kC9KPpZSB4
zUoq&vUL!Fy47_aQ11ge#G_nPIT`{s28*vW~`N?(s6zhp=em3$J##}X0j_2_r=5!h9
z$#^rb8F__x-v5l8!ym8$TYfQe9%o;7{l<BJHPTAO5v<1Q-;6Y3_zfdR@i-pAN>Sf{
z(~SBu)``n`QJtzRqCK#i$`vfZ_b|7+N-FK)JyZg5^(`uga6M^VO#38%m0!^NHiZvp
z*c+g-jf%y++<+#~#X0yI^?JKX1~#Gn=G}X%Ea4Ni;$e*KtFni2uJu=$XrH@NnY747
zEWs56RDO@&;U=uOOKs-7a_2ym2k2Oj%V_xfAeA^w2vV7b&!gR3r*STZ-tFQw*hbuf
zLjT5K^`*XPuu5Ozw?b4d)Be#Am3N2_hN_eid%{#k;kTI0`(<Fb%6=-=p-tuJd(^l4
zx8oAxGgym{MyT(ToW+-j>xZ#o95I{)U>lyofDvQ_&tWNUk5qX9?}$>_jdl13Ot_Z?
z@qX!~V0UY5wE8yRgpqEgr_i2?$WbaSScAtfbF@mAt-nuY4l4`0Uu70aD2-8BPkj0T
zm3W*tR^>^oALlaDHQr@PV^!Xuzu!YD-XaQbQh1mLLmpO{Oq~9R%8R%gH(+#}N)5h;
zb{8kdtMAl&j@iV$5>$S~VzlRa@kIAR?<AF8#Oo)!%~|^xpOm<Aib@!sO;oS+p>QKf
zr9bwWsuG0}(^Mv4>U6hztCC&E9Z#rCr~dmHDl>UuYzh;{&G;amz+u=URb@7g#E-EY
z=hH8dG;P7xXRACyeQcUnC5b|5no0v6!}~DjNjG2}_9kw_d+`E}!M=0dCQU>eZ@{PU
z2u{bKr`UYFC>NuNpPug~wh>1V{}FBGI=vL8Qke3zN-Wl(y=qV6GZ>Jrl80qzCw3Vp
zVE6)+1k6A?;4X~BQ)nl89q+*r8LoW>`WA}zcpk%0^xn3Rlv5aqcHnt90Jq`YcmN0C
zN$ii8@P0IzZo*@5FmWL^v*Kz@B~J3V@phn{NC(<XX|~J6SR^xE$)J!$LlrK>pKu1I
zEmFzEy=VsvT&yx2GtsVaBR+<Q(0+Tr9G9U9Xjhhpqw!@-$D?T9Gn8A)9@h#Cx99&u
z3O3~z&|VC|xhg9$8RPLd?nM8k?#26YGVvET4O`~!g<Q1v!pJ<8gLnwbu^^x0NoKC1
zJ;u|PyZc~JAsOWNM;a*HMZ=dxDnqf$N_|kV$`izKD>$e4GVaAbCGOiF#yQ0DjLI!M
zpN94rE?CL&!qinR)vK_bxDh|Z($y-t82dZMeU!o*6l?}Aq1}vOrEaq<N85fFXW<RB
zyLr|cH-YET{y#X5Dd@MB3kT<*?RNkt;T2qp<2h}1!mp$KBsaXAfBTKopLLt+DB4qS
z741Y~*12=O4sFLav@eKy&fSpZ7*E`Zc2f>5bLV~z+Eej1j#H6#v=i!E?iMf`rx3qT
z&P?o&%Lyv%OoLx^KdV{zIPqr{>iZuMy53Eo0qrNbhW5uOX@h(5F0>a?J5I!?msEmr
zIc8uL+J2YOj+;>F-0Y<=pNbBgj^j4E-Cu#W!&$T|i`?XnX*${rRie$rCusW(-RyoX
z3(?*SM{e4!%GFQ73iilWEXBdq9B=g2z2bi7-{0agky7K%YZE3i&|fhI`)yVE853~~
z9ph?M0*FhtsqDk&Fdn0~yZfR5?VhScE=Bn>ZXyn;<BtdZ_v3AbeZ8;VT?~KP;f~F}
zv5W_sUQ_A7hz56z{2ECq9XH?w>i0Cc<Ft9F%B{rncX0|Z8@usb9{Lj(?RNERu_tl)
zO{=hn_=&t))-$5HXM{=HdwWFqu&kUyPiApWiD!6GL~TK<86H4oNygF@zKV5oHN5uO
zlcslbd#l;kJ(afX9M96M^t_B^_JIW<3#cl{D9l*qi?TcmJt0M&!jLSFuf?;nfYCi!
zG)9M{ctSjRnfZCeg-74@wJypprlGm@j5(0x&p5@a3hbcGm7#hmKah&d{H&b3MN~!k
P*N$4F{hGH|tLgWDJ+UCa

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index c05b5fa..3537df0 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -2622,8 +2622,8 @@ msgid ""
 "The `%(directive)s` cache directive type is %(expected_type)s, but "
 "`%(value)s` was found."
 msgstr ""
-"El tipo de directiva de caché '%(directive)s' es %(expected_type)s, pero "
-"se encontró '%(value)s'."
+"El tipo de directiva de caché `%(directive)s` es %(expected_type)s, pero "
+"se encontró `%(value)s`."
 
 #: httplint/field/parsers/cache_control.py:221
 #, python-format
@@ -4223,7 +4223,7 @@ msgstr ""
 "parámetro 'type' para definir el tipo de medio del objetivo de la "
 "vinculación.\n"
 "\n"
-"Sin embargo, '%(type)s' no es un tipo de medio válido."
+"Sin embargo, `%(type)s` no es un tipo de medio válido."
 
 #: httplint/field/parsers/location.py:48
 msgid "This status code doesn't define any meaning for the Location header."
@@ -5488,7 +5488,7 @@ msgid ""
 "problems."
 msgstr ""
 "Esta respuesta indica en el encabezado 'Transfer-Encoding' que se ha "
-"aplicado el codificación '%(coding)s',\n"
+"aplicado el codificación `%(coding)s`,\n"
 "pero el cliente no la ha solicitado en la solicitud.\n"
 "\n"
 "Normalmente, los clientes piden las codificaciones que desean en el "
@@ -5528,8 +5528,8 @@ msgid ""
 "The `%(field_name)s` parameter `%(param)s` must be a `%(expected)s`. "
 "Found `%(got)s`."
 msgstr ""
-"El parámetro `'%(field_name)s'` `'%(param)s'` debe ser de "
-"`'%(expected)s'. Se encontró `'%(got)s'`."
+"El parámetro `%(field_name)s` `%(param)s` debe ser de "
+"`%(expected)s`. Se encontró `%(got)s`."
 
 #: httplint/field/parsers/use_as_dictionary.py:85
 msgid "The match-dest parameter has an invalid type."
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index b3dc3577e5cc5d33cd7e768f52d4f8e07dfc54d9..1197a7c6e8024a0e9c8435c56ca74d736f230975 100644
GIT binary patch
delta 1553
zcmY+^Z*0wH6u|M*lPLGLZYE1(li;FtX%oiAaJ3<<)Tn<mifOy8x2{%O^p-ZZyS9dM
zndqpkN_A7AL2FCAKrP+8+19<$S9`%m6xkBYA|{LY9#0eT>hqlQd+zUfp7T4;ZN1|?
zcgNcv8xbuMk;{cDD==-X$~(9XXX4Me8xzCMLpYT<d7a7(T!S|6D2~NHF%=VvRNlbJ
zI0OqZ4QucNJcF|_u~?%rl)>U+m5Er2S=fTZ@oyZ7iR)E{;dmU3**FbDI0uiR&A*F1
zaUz})x4^YhH*Zv#N`U8Ua1w6E6uej#bvwI3Vi5`729-?A#pT$F3-Ku~#_Wx*0?lX}
z_#NkC(k7Sx5XTcAM%(zW_!i#7LQF1KDZm(7{+}p=WCnqVN;=L*+u<&(#2?T~HLXJB
zM~vbGoVD3iDuVNfFJljSx2V+Nb^H#)l`7RZw2FnP%u&2W+;6K&14jR1@DUGcKXE(0
z{i&;nm&#<2pN#g+BA=;5@G73dtZG-Oe=(mpSi>h^eiI5_s#Wom@7(4}e;qFo_y1g_
z3$Nfh)|Z{z-8X!QR?^@Ol?7OV+4vLA#aDN_g;t~WN+-UH5AbbFuj|_=+J>&8Rc_KQ
zXB9qgc3ew7Z8ryJefg4sB_5-7cYe&hxDnqczK!o;#vYYitVdhmA+Ew@d)+PQzzoZy
z{chqHDx<Lu=|gEpd%u6bN)T7#Le`gq43=SUpVRAAnknIav<kd=K&1w2Fc143bl*IL
ztBE_%D&T8y3umI8yb0}g-9S5_98y^VVGQ9#j9RHjedSKF0qy#A<5C>_waP3kLTk#i
zXx)7atyz;A-7Q&)R+%=;!Gy!EA_ZvI^90(bx`!<sEZC$H!)r&l|2_sq%_{Xws5<6O
z=4)|HlY@4>s?kpP8`}K%Z&apW(zhyJ^4Z5#e!(2HUP)<H8G$7@9rq!Jm2PY#4xLna
z#P9VK-JQtbzczOt<4>z}G9if8<xlV?9zUb97wgXQ&&K@M+ExA_&gxLPfT`zHJlNak
zeH_TVCpduofbUiM;~=#7^*%@1gLo2YwVuEZPay8RC!jqu67o{UROA;&3dU~AJKtNV
z^WwZ@O7hoRqG3u{GhZPNl}1WF&MmJjd!CJjb=<%gv;18b8q&+v@AHr8YV(tiY%I37
QJqWALe(C-HpVrj)XJ02CB>(^b

delta 1549
zcmYk+Uu@G=6u|M*lL_m_d=LU*hOrszS|EWUM$v(&6$FGK41q8*8yTgnY-OylDNq>7
z7*32^M)_-i!1yQswjqfNnruGs=Y@w7iAwO_;_v}@AjD)d`aQXe@#%BV>HXb5=ib})
zzO1&stP4#A$*72Y8&O$`fz>K+Vm-cwSFr)JqRwWVN}Rh!Wd@d@^=ridevjkOQ=u{m
zCtxnF!0}j%EASYGP-B{uF*IhyR3>9N&c?ks7JtQOP}i#Dp$|u42w%ohoP{a0{&z9$
z5%~vgf^?PZH#)9TNL+$1;3o88dpzk@cALZk5*h1MX5wO8f(Nk}AK^O~s&*CFgSLR1
z_%>#*clo6_k+>Oc;oUd|dohB!H7ey;kCyLC(s-7}n1sqSd>w6tTd@wmLfgrt4JtjD
zz#vZD=qgo#bBHft8l_gH5pH1zmer|j!{Hw=F_me>UgG`_RZ^JzWs}PL{7|>qt@zFs
zR}rBy)5%XjJF|+dDha%Xr}5Qou2O$um^fI^5zxN{1v|E@<dg6G$d&#UULpP)yRqwI
zl{L&STXwiJyoXlOV1vp$jNyFz8s9?iPB+m)w7b%YbMX&+5ua}yTqxRtuAx<K{4Qr4
zD~K=QYApDKjWfUOqG5^qXt#SwlN<PRe3$qRmf)06Rm!jtZGwBa9Ov$Kuiykuw>;W+
z{?AmN!z6MKr44QTk<BWv-~udWercky7=Idca*N7gO1KlP0)bYQdaT9wupjNrOZTXh
z;t8}0WTf20MQA&3L3>@d(Kh%P7h>67l~ve|Nh|f}eQqZawCC4@i!f)u${QF)yOhV#
zZugI9mo@u<dnL2cDsu#vq358h$a1vjc?j*OdhsY53m#Hw!t@us|0ijL5397$A%4W|
zEaRxVG{tDoYa`kYzeDRkfG=V8F_kRxq2nqyuo&&GJl&>JfGe>GcOaXU9y~x?dP?On
z-~V-r+dYiNgEQ_u4t%Nd4IP4KRZikV{0;Y=Q`wE1&-2el|6vzYekPuFQKbv>+Eu*x
z!=S%o4*l+9Ci#I5m7(}Vr;Bq29hpgE2tSP7?k#Na7J4pw3pG8%>+^32#}eg%^_Tl1
zI>(dg^H+w~5~hlxI`b)?e^phYa%EXfU7TEgcUK^F_lhTPM0vcbx+Yo~$?ras|KAta
Zqv{{(^CzlfjMg7j4gGKQ%yT+!$iKIZA7%gm

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index e0be4c6..631da87 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -3356,7 +3356,7 @@ msgid ""
 "The range specifier `%(value)s` is missing a hyphen separating the start "
 "and end positions."
 msgstr ""
-"Le spécificateur de plage « %(value)s » manque d'un tiret séparant les "
+"Le spécificateur de plage « `%(value)s` » manque d'un tiret séparant les "
 "positions de début et de fin."
 
 #: httplint/field/parsers/content_range.py:175
@@ -3938,7 +3938,7 @@ msgid ""
 "`%(value)s` is not a valid in the `Cross-Origin-Resource-Policy` header;\n"
 "it must be one of `same-origin`, `same-site`, or `cross-origin`.\n"
 msgstr ""
-"« %(value)s » n'est pas une valeur valide pour l'en-tête « Cross-Origin-"
+"« `%(value)s` » n'est pas une valeur valide pour l'en-tête « Cross-Origin-"
 "Resource-Policy » ; il doit être « same-origin », « same-site » ou « "
 "cross-origin »."
 
@@ -4706,8 +4706,8 @@ msgid ""
 "The reporting endpoint `%(name)s` uses an insecure URL (`%(url)s`). "
 "Browsers may ignore it."
 msgstr ""
-"Le point de terminaison de reporting « %(name)s » utilise une URL non "
-"sécurisée (« %(url)s »). Les navigateurs peuvent l'ignorer."
+"Le point de terminaison de reporting « `%(name)s` » utilise une URL non "
+"sécurisée (« `%(url)s` »). Les navigateurs peuvent l'ignorer."
 
 #: httplint/field/parsers/reporting_endpoints.py:51
 #, python-format
@@ -4720,8 +4720,8 @@ msgid ""
 "The reporting endpoint `%(name)s` must be a string URL. Found: %(value)s "
 "(type `%(found_type)s`)."
 msgstr ""
-"Le point de terminaison de rapport « %(name)s » doit être une URL de "
-"chaîne. Trouvé : « %(value)s » (type « %(found_type)s »)."
+"Le point de terminaison de rapport « `%(name)s` » doit être une URL de "
+"chaîne. Trouvé : « %(value)s » (type « `%(found_type)s` »)."
 
 #: httplint/field/parsers/server.py:42
 msgid "The Server header is long."
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index b12f21dfab22954413c4f125f9260370778a7086..dac8039ffe155b37af61dcc7bbb2b523ac36b9ba 100644
GIT binary patch
delta 4889
zcmY+|d3aA(8o=@Qys^}pj%pPhs)G;|vBwg7QbjEllt`$=773})pnld`Dzvp5TS+Fi
zBB70aY0!k)Y8zC9Y7v!M+7e@#@A)0iGtd0>x$imW-g}n!ocl|%pBKw}UTjNJY0qLK
zGIp4e3L^5#a3gUTfK4zNo8cAgfN#VY3Bf_w3b$Z=ypN^OFV;v`48&h>HV!Nx5;wv~
zA>#9+jQC+T_QFE(#^Zfac)V+{1Zgj;(7rGkTjO24jrB$wX^0ia7+Hj&xPSrV;c?=r
z2}YI^cOUDXcW<2Q;3I5IeXa3EHu;D|;Xi5j>O_x`!(60JGE!PaKAvJ^B5~q0Bdf6F
zboao`Gu+5J%`);G<two_4w!9ZJP+QTNQa1<%rP>7_|#k@1$kbV&yDa13H{PYBIVih
zjQoMo^Ig0C9=hL!f*iCr)?MgExCQOh-@st3%+t5=z-WArxYAN1U*Jegquht#lwoAw
zGW^H9@HoBy8|7K6jm*SLNk;Ba9+_gq!+qV?85xA0(_FORqUm}g?PxF-YZ33?zz8u9
z?F}Itc_H<gI1@kE<YwmjW+NSmC#M?ek0;WMFqu+!n-K;pTfZ@~nEQj%jl7CE_&Vi(
zVPoadzB`OmryyjPk(M-w+iheeZpH4{eUFh9j35Pv61U&)I+TigDX)9LNIlB$W{_-H
z`Jj<eI1}gKGyD`24;gtEOS9hL7=b}{X#2V7M1g#7BoI1dN1Tc8;5lrBZ)UpsUf7Cw
z9`?nvXlE)Q%SbfN#<rM`q1fVx%k~90m^crIW6z^3y`9=aT-b`&elQY-9vpy|u?jQO
z@|b%-)Nvz+DBp)CaM}qY?_-aXuKjwnBP(&rb!<2`AU=ZqQGRp-8-O;aHlwE<7Z16x
zN!a|f8_67OLwpnaVa+pc>OMoejm~2PzI@ir#7MOFZ$-PW3!F1j7sD_T=VAo@iT3``
z^X|U6=h^=oDL6&JGo0{m_u@}3kc`9!(B?qli$;22AG9M*#bH?Jl98Smhqj|fFbJ#v
z<X$uc?Rl{p?aW?4d%!ii?Aoor%>K78%B8^eyiPV#jx*7&{bsalosYHyO|Q6iU!YCK
zT(sM<M~;!VF&S+K&R}~iebwbwAM8fF4sFgn!TQ+SbIpx#4%!p%+Kaf>&+Y+}&?ZqP
z*1?L`-O=3Tg|pD!cM$D1_Wi}k2<(hDDfgk>9c6!Y1L=e|+2^92S<huIY)|Uma1V+?
zyOyaKfO^v%L=Di+L>$`Pu?_vv+%nP`YoZ<bIJ7gm3+*m2xkh$kd$coRZoBt|AOrKr
zCtTPOoWaUi@i(^wZ84H~D2~CCXxB1?W6UO}2W@s|pv~rdtcI=fT!)5YZQ>nR5pSU#
zP?6tVN1I`LyZ^^?v6zYs?1O#p8rg%}(Vy)%`ks+u_|<(QGbsQ1fva!$2L}-GA81Fo
z^-m*5G3GCK#s@w$a*4S1BfhTOUo79qTw;IDXZyaLIFR>C_y6#b!0lL=hAp4C><)SA
z)@~cxsk@1GYHL3;vH|096;^uglJYyWYg%5^Yb>rO&cG8qH^!*<W7NV&#eVh=7vTKu
z$whb}m3$he7gkBe)R$DsQr@$O%65*}kwsO868o1>sfr6qsywINZeNw3tS_sqqkIWp
z9Q&d+uc$=gE3c~Dr#|5|l{Dh$GAi$2#j+};aY#A!NIxznlvmk|m)}tD=P|K@dY52w
zMU{m-pyiwDJ^9Y#5#r^Qlu?NceoN&%*8GQhm!d#rm4-Yg1H0klD(YR5PJSwtiOW_~
zxk&pK)z!NsW&J(s{fsuQq4Jc9Be)MUYpQ&UGis^az@WEP9-v=sl@(aNj!Gu(L{>|t
z)K!^AJh7h2d&Gt6GZVz24VWR~str{}q7R=uULo;KRAy5Dm8YpnYbt6qQ)xp*Omme3
zRHOx|e2$}9s$9o{tyDH)F4`nq(psem_r1kUb$pnCwkpFgELep^m#hvdQMB9MQDr$+
z?4&Xd_n@7@CY_ma^b~kcWeFGCFpL{JcTsPaZtSYwld4%a^&Tioa47AHc31fX<8cr^
zK%3=#-d73X{zg4iVsT=qN+{m#sZtw*d#jLlGUfx7t+XH4mzlErzjm0)SPDFN5FcYa
z?(3)Cv%NvM$~@vkv{PCs!X@WDTt-}MfXer{7VQx|;zN~R@i5w?{(7K$VM-)PNZcpN
z<yOf-HfPv>KX73?@Y!IMx9Dl1A@0G|hq@^{jI*e3JxnDVk6|g=ZH!jwfcu8K?Nl^Y
z<!zQ=%?K5Cvi$gw%1S&Q&kSSC7?t|?QUWu9&Bw9?cK^2;=X!V#S5T2Wp0%XB?F6?S
zx1deNP?B{EmYArr2KV9y+7FndGMc#L6t}IWVSCD#PF1OfSEsp-7M-qAj=0ARw?rfO
zVd&leIkQw+P|<j{8`+pdrjmHp9Fh%l=Bl*CAz!FW!A)P%K@6C$@&PYiu|U1QeDd*K
z;;4nrG_+s4XJ}~OXOYS=3|p+i_e^RmW&hWtf$uW){&H!Cc8!;z{h<)OoEKv<mcd-C
zfVx7xAE8QUvpfbv@GQn+g_Y|44LApPl5{?+T!;3qX8TcJbd7p{<ThNxl-eE-q~Jr`
zg59umk~ceL5H2N7$0Y2Q>|Xp3gNWPyOTB;bOvP5j=g=P2ucxT@=X*HTBVP8xlh}l~
zz*?0d*uuj_9WK^lFkZk2thA18gOkw@(_VP-g}R<|gK~eg0~n6>IXlqqid?iaGkt@b
znLM=Z8*Oy)SZqe@$>75FNWOMG3dHGzNocoW%}pwka5YZG%9}Z2F$L|EXQTZI=C{Rt
zbUbL6?lk&i@l@Bo5!&a(U?|>2>OB(7pD(rpacC<xqWy*9v(=sbUC}PdO}v6l`7<aG
z%YWm_Lot$g9o|CUZ{1SmV;=E}bd{-?$d}BXn5A~8JSKjF#F%UMf0<pJXjG(N02NjC
zxDNF~`_=mr6DWVWm;H=m_Nko4GW*?H-$pxQ0SCwh+V8}_WAO~PH2w!&j*Ld3JQFi$
zpLK|Hhxbe3VU-ws>3i333=Xypus;T5s`tm~d`u+1gF!ehOTE8(ccESDaz|YDPeOav
z-$T1ShaYv%%|tsB<$iES{7UrLp4UF+D$>y=NwecF2|Z|YAP4QX3O(UGjCQv)Jn24C
zOVPfl#wmCIr#OK)3tM8ykBr=hU)5*_H0!L}MZcY8|4*i%$vJn#?ne8<;PWcEOw}Ho
zM7;Kb`|SE(bV-_pcEt5AIhSHPV)K)0AB^_k$--J#^|G6}_wi%mYcK4R&HlG%`<ZOF
zhT&IS2X3HEs<0e4vJ4C+u5i`8C<-HpH=-SBiED0m%*OG=zCXL&FdOY3EIHT<8(dc@
z%w)_#KV0bfRi!y2-FwshR(o>Gy*MS8BiTOqHlJneh^=uwR-*kK3`E~M>iySBhdh;=
z)OW?+82CF$i1X3LX-M8l@w+Oi#Ha2v5aJ<I9=NQ{`qQ0Y<sYhCr9l`T#h^#LfEN|Z
zSJ_2e>aohF#K-Y9?D0gUAVxoR9f^D9Ou#oOpNPe|@2h$Ds+KS4%T@N2B7W&b{7jp6
zr6Q_S8xR*eDtbtGWL#WqT=kD4()&i6+|P?pF)T8Hcu}XP=EMJm>FG~RN^&u(NB578
zkF+-oTBA{>C?zrdhueZhXOpzw%fwN!@i7C#M<tB#Hfxovt&7_S#m7b4+h(O|O8ftN
KP~am?D*Ru|m)1c5

delta 4889
zcmYk=d7RJH8o=@AJjTT}RF;q>WHQ#VWlMHL_OUC=U`At|v5f3L`xYUEvURg>Ge)va
zBU?z8D7m&#l7#45B4y@&p5Jj_ulv{g`<(Cje$V!t^Zm`-&diyfnRCmke1U~dWb^<h
z#YE(}K~9EZC9H)ju?}9s=J>*3C(SSx8(<Pv!{0FvhQ&LH!kYLq&cc`wk%R;%{~$gy
z+(~J?h+Qxw(FKAHbx-sa79sUzIa-4&u_4~Zn^<{-lj>OXZ6}Mc1Af2&Zs7^yNu!)B
zBaRyF-*;z>@8BO;ll$eyI!VeR5`#;qmv=(I$ssP1CpyWeA|oa{nLzx`R3{%}=yd<W
z%`^PSTFi2?pYmnc6{BZ68Ow`z&!I!aHQseHp7`WkCs}!4>v>Lig>-n&$sEcrE^u-m
z`@iq&^$gJcwiKkJJs81y*a(x*rv7JaiY0mbHeT2t+YrC_k(2otk6S5s45t7i+s5!8
z)8H|B{~YCqKXEb>&#iLu8|8i0ItlPx)OsgxVc--Ob-Adu!ATP;jKm7Wdp0scyoL5a
z<R%*A{vn)+U6TCFTuFA)l6XRjlU{gys}m+uBDOhUu#)nblf^vWWQUXdn2rT0zmGMQ
zSLfR0qzna-sZQ!sA>nf;D=-DyV^o@x<&0o8_9t$<*LNrx_fQ_O&q-CvZyzApu;f7}
z!*M#ki+|%ZeCJCiEie!3-4lCYJsa8{E?QBLfwi&aVMc`0@pb$TYhbY>{(dKHKs+D2
z;kRfrRp~1y1928M#)sGm>m2pjz5wHhZ{Z;9_%%y!Q+t35yOHmhlkPYUd*cNRV`l0e
z_b-S!;p9uo)9@rtKIx<bw*SW0UxzlboTq%p2H-2iN3a)Wpbaegw9l!{7-&Ml11>BH
zU;WmPWHvS;zJ@)p?00_ZW}<DQGZ>Az&-j^$M|(a6ZC~s6PAcP@7>jc-8t<V!-{Gu(
zZq8Zu|0W7fQjmdT|Lq$dbB<&r{sJurvYvO+5xb&|I2i|E$OR{zF#)ZkN3b52zUUiz
z3vD-jj5f1p(GIv*F8O-vF0ucuq3aY_&nu=g<v1N}?Kh*X^+U7{)Vl2J%|%Pb>uB4t
z{SQtm;!3m*oW@AZ^P|tLuGo%vEn3bz#%kC(aK(>sHrk2z!_&CjPyPh~v?Mx&m9Xel
ze>As#>I}5!_M>g%Tt7QWz?Nu9nTEDI3S9F8X@QpPbI@isaDfZ!NyIPyMKNe=nT%CX
zuKR<iD%wmWpe4~(EQ^`g8q5CbM?MN|Mt7m@f=t|vjc@n?Wumngc{4b$fQ;e7MsONS
zVbNQD2^wN7aU8ylC(zb1l4H!0a~xWB??XEwA7VJxyX`v^hY`d(@J0LuZ9v)X_>R`b
zNZbFTxme7NefTE6@w<~W+>T}0e#8IcBqy%8>tqJy8}Ir1)$Vfu5#L1{Vafw1U*o_(
z{25>Kp_2>56&~?*<@p?cI+;rx&iQQZ?Zg<`m#Dw^NZ@wNM#Z{+JLyLp`NVIdEojMf
z1#N1}WH{M~@%S+o&h$z7Iog`$7Y*7EHxQ@cN!}ahH25*9nMGwW@!k;5-_Bfg{fEk*
zR7}aHvKlvLS1Ck!R1TG$9I*rbsnVagR4$d5ac*vvOzLfaM&+XUtjc=I7x2ZghF;67
z5{tR=tK8-Ou;*2_689~j@;VkOq>>N&yr2Q;!NthJD#>`Zhz388(~D_v3C6ytvXB?l
zF0R3o?-U*-UQ|Nm0QN4aau#2HNrOv~fz^3WS}B!wct1>oOVYHoN-5&J;VS2;U$cw`
zmn3i5fCfLKRm!P6;l@Gy0{53!*^ZMcsQiMpDyrPW5)mrPF@GhMBe)G&Eg4r?Wh(LL
zsw!=Wr5ZB<ZC_!Ah>KTO8G=u0sL+JO*HW3u{Uw1{RT^?5td2?}Zp6K&vX2{^>Z#1b
z!Sz+HVkRcx)dm_&!UYXga`0Rc9;%du8EC9B06RBTA<^YPbCtf--`Y}T85U}#G6r{`
z&0y8m%s2)zxcHEZq&6zud9Ybq4QA<@C=H%e)!S+CKv{tOsTa~-WgNz%{ebulEz3K0
zP-({Vl{>1$<LFK*o$y9yl?ZImRV51p9P)<Br_@jE#!S(^l<BTAnu1Yy5bt9m?&_hz
zvpu4x$^zo)Xj57^+9&5tTuPj^x5{Ds1nr3K-$&&d?nO)LwK2ZIf5no7#2x$k+{*rz
z<qZ4p5Es^gsc|YL>8bSdFMg@NpR&C;i{d&1RMPP<=Aqu2fhx^$*C4;0LgG~_vINT#
zRM^RKY?#UlJd(%^W8B*+)lf$<6If$3OJMu|)iJ(@H*q;PR*YpWDX%-;Z^sR2$=H@;
z-GbRBsI0`DxRLtZCaR1e&OX_1s{lq){{9q|aJ(?pcQj<W$_vD8X80xQ&kw`k{y#rU
zr7kzB%=RN2GKZ-op7JiqhUe$1G{!#jRVL%Q_vj#&e_!Pd8eaT?27me7!xqHR3%#4r
zzIKn$QNQCNmE+iXu?pWa3HylsU!Dp%mTK^qOLeq0UWoQXq3<#p#uZoquVOL$8|@=h
zc)8E=IBZ6I663Mp3Jv}SoPoPZx+iEI+xZFG4?|XJ@JDW?l}xF9=X+4l2iIXc3|$q>
zPU(qu043upj9l#-zKQjSYp&7YUpynR0r63^qdIi027kV{$Ew8ho_Y{#5kEpZ;;RJK
zv46Q(icRr2Mq~c<Y#SVbrE$$uPdxPxY)E;r4Sr<3(B88dZC9kD?f)?w{mfiJt6y%D
zj|XEN;=m3rtVj3JdQ@>U9|>HHwhfCXsZ7L$I0*|TbHw5jv?)K0_7kk|7XQ&1hPHHv
zu`Ei8uU`%=*?VIryn@{4??3*0u@1zb-B^zH3*`aY)HnLnFUfhlOk9CKgKA^0&wP0^
zj3r)zzoOgjm+B_oCZ4xLWeNuPlG%wFvP<PLac&Z0u5~F#DkmB@K1BP0P$12Bs5#nK
zZwij0{LUWsGxqyJ<y*|L*RS;@v>7Y4k6fVsCM=2>`~A`sIp}jF4u$gFc!2t;Uvlo)
zlmrf`493T3e?Ip+tiitrQn43tsUsTvaXJm>5MRc6IOr=4{_5R~w$`CXefAGSJL`W!
z+nznY_V3+|HWQ)8{1HDN1J?5r$Ni1<Xh~A>gipdDXgP2iZCf=v>D`I8Tf)EbAF0`B
z4HZ4*pC5_iiBqvY);`V1vyhBv0~&kA@1pcG?Egs=l>6Qvu}NqR);g<lgQ-f!iNqhB
z^Pk-!=Y5i<qK!E0f_FAHA-;!Jzt%;6@T6h|;)0j_%thiz;_sf?DxLjrXZxXazlKql
zeFx5=B~_ar{K!7Tro_+w=o{*S(ZtKqMw*E>knvYE`2PU+liv;F(f(jLja{(xRh4W^
z#sn;lGXmFCUSp(NuKV9=w}15we|Uo<*<Os@vF=SjwM(%C^)F*>biZlvUn_NPt6ZmE
zBkYRh?~sHz4J}@U2Wc<^Q-}}TWgx_X#Ctw#Qy=&fEZ0MoAF0p=zrxCoXn=<P!c<~?
ztTK&w4?d4g{#MC~-JbZ4^v>}1!{U@DU?|Vc&s2E^mp?VhyWru=xh98}-Vs{b)o=1_
zSa|QD@xur9>lr(AX#CJJ!*=u-=x)r*78X7rc2t>Ri=v*mKK~1Lq&;zKSLX-|AJJ=I
zVk}kTS889EJuG~1uR(;1F0axaxx>Qy#wQMr={bB<f>mj?S{sJ)g2bT%i592m+Q|QV
LLGwqtD%*bn2pQW1

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index d265adf..4d4fccd 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -597,7 +597,7 @@ msgid ""
 msgstr ""
 "Brotli-"
 "compressed応答はBrotli圧縮を使用して、ワイヤ上で転送されるバイト数を減らします。しかし、この応答はデcompressできませんでした;"
-" 遭遇したエラーは「%(brotli_error)s」でした。\n"
+" 遭遇したエラーは「`%(brotli_error)s`」でした。\n"
 "\n"
 "この前に%(ok_brotli_len)sバイトが成功してデcompressされました; エラーのチャンクは次のとおりです (16進で):\n"
 "\n"
@@ -2950,7 +2950,7 @@ msgstr "Content-Range ヘッダーにハイフンが不足しています"
 msgid ""
 "The range specifier `%(value)s` is missing a hyphen separating the start "
 "and end positions."
-msgstr "%(value)s の範囲指定子がハイフンで区切られていません"
+msgstr "`%(value)s` の範囲指定子がハイフンで区切られていません"
 
 #: httplint/field/parsers/content_range.py:175
 msgid "The Content-Range header contains a non-integer value."
@@ -3470,7 +3470,7 @@ msgid ""
 "`%(value)s` is not a valid in the `Cross-Origin-Resource-Policy` header;\n"
 "it must be one of `same-origin`, `same-site`, or `cross-origin`.\n"
 msgstr ""
-"%(value)s は `Cross-Origin-Resource-Policy` ヘッダーで有効な値ではありません。 `same-"
+"`%(value)s` は `Cross-Origin-Resource-Policy` ヘッダーで有効な値ではありません。 `same-"
 "origin`、 `same-site`、または `cross-origin` のいずれかである必要があります。"
 
 #: httplint/field/parsers/date.py:47
@@ -3788,7 +3788,7 @@ msgstr "ネル ポリシーには '%(key)s' キーが不足しています。"
 #: httplint/field/parsers/nel.py:104
 #, python-format
 msgid "The `%(key)s` key is required in `NEL` policies."
-msgstr "%(key)s キーは NEL ポリシーで必要です"
+msgstr "`%(key)s` キーは NEL ポリシーで必要です"
 
 #: httplint/field/parsers/nel.py:111
 #, python-format
@@ -3810,7 +3810,7 @@ msgstr "The NEL ポリシーには無効な値が「%(key)s」です。"
 msgid ""
 "The `%(key)s` key has an invalid value; %(details)s.\n"
 "Details: %(details)s"
-msgstr "%(key)s のキーに無効な値が指定されています。%(details)s に関する詳細: %(details)s"
+msgstr "`%(key)s` のキーに無効な値が指定されています。%(details)s に関する詳細: %(details)s"
 
 #: httplint/field/parsers/nel.py:128
 #, python-format
@@ -4169,8 +4169,8 @@ msgid ""
 "The reporting endpoint `%(name)s` must be a string URL. Found: %(value)s "
 "(type `%(found_type)s`)."
 msgstr ""
-"報告エンドポイント「%(name)s」は、文字列URLでなければなりません。見つかりました: %(value)s "
-"(型「%(found_type)s」)"
+"報告エンドポイント「`%(name)s`」は、文字列URLでなければなりません。見つかりました: %(value)s "
+"(型「`%(found_type)s`」)"
 
 #: httplint/field/parsers/server.py:42
 msgid "The Server header is long."
@@ -4589,7 +4589,7 @@ msgstr "「推測ルールURLは安全ではありません」"
 msgid ""
 "The speculation rule `%(url)s` uses an insecure URL. Browsers may ignore "
 "it."
-msgstr "不安全なURLを使用する「%(url)s」の推測ルール。ブラウザはそれを無視する可能性があります。"
+msgstr "不安全なURLを使用する「`%(url)s`」の推測ルール。ブラウザはそれを無視する可能性があります。"
 
 #: httplint/field/parsers/speculation_rules.py:51
 msgid "The speculation rule value is invalid."
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index bb5637273594981aa8382629c829fed7ada333b3..77560804928a0db5c517cf990556ac4ef4e23877 100644
GIT binary patch
delta 4839
zcmYk=dtlF1AHea?ITq%YnMu?(hGENPvZP$n&`hIPOp7HWOxSF>%}+z3$6ZD#x1tA|
zB^kNK)7(;&ODdOUZe665T#D!Y`JUf%`RjE)=l4C|b3f<1eY-XA*4Dtn^bp@<5lI_r
z<WKwo%VJ5oky?1kZ@@4k&8<in8YA-5aGt{+BaDp2J|m4B=J}%;Mt;LpnMS_BH%A$H
z0JE};)aAJqc$~O6+sG66&dbIpr%7CR*+?JUGulWP57r%H<SKCo-kyfB<BTl8#rQC`
z7;mHl4nvI#u`&LDwJ{{eRoomu<9+=wlKg0&k$%_{3(4Q$Be9D_+AButW5Y>C`eNc_
zBTF%Vijfu?Pc`x!1#@3B(hkpHeGH#wWH)v~t)RkmBdsw8wPC|Bgz~Gf5^j6lND%J-
zhmlMC{+(}zkt$>q&oojKkIpjE6fe(q6^72GAP<hmy*Lef@%z*BT)cWdLrZ?<8|32x
zY=M`NwoBawMq-KI&oh#Mr|}H=Q45VUAof*y(?}~4EwC@9<CAy*yW+iXxt<KfB;uv0
zLwyakT%E<P=Y8;T;#`cuVr+spFbW&KZKN6Y#O^o+6RBU0k<be3zvBvIqCU7BwI^TU
zV_0s9Ye+n5%O{~$v>NsKlc)`<!o2As?2I}Ut(O_e!z`SFm6yBxdH5*x%jYDtV8s>A
zIIKgQgW97ds69E0(OB(W*RXb|bDW7f#QE3~OYu>x^`7f_FKkXc33WGoggRwsu|D-n
z*_B2bVl;+f5^968uq_r~1pe$dXqAzk#4T|ePR9qa`upxZ@u&^WKppxes8e<TwL{nZ
zw*IFP-y>v9AfY|{7<Cn2!g?6A+U?U=)G6|z_TV6P!ds|Q)M1UAl5Esn@iuDt-S`k*
z^c%j`#l2BSZ1!6AzxH?!89F2vP+w3X-@UjQYJ~$Z4(FmicO3P_H&NF>Oo5xzG}QMk
zMV*SBs8e~(Z_RZsZjFt|Pg&=4Eq|4aj%4IxQ@o0`FoIJ;A8hOQMbwJtqK?>pfBp>&
zCyw~Q8Hb_7X{ZgJj5-yoP^a=M)G7JXM?&Ym?s_-$33xwoCJw|os4uvV`hwaYx}J7M
z?O`s4;3lkzpQDb{1=Nv=-ry?ghuYxjsLyRieV^}35;aKNMqSMzAGsg8q2`Z6JyPeQ
zj!XgSi%#Jvth~{UTrN%~-iv$i$s!|fV#p@9-wUxnvDs{71P;I~-Ty~P<dBi@v5|SW
z53}*PE$+-ef_g9w-D+eI?nhn4G24thgW0$S527AeW460BQ;gc7-%*FU$qpmKF&XFL
zK1|mApR&_!w~c;(L2XdOPmEMIA}jG%;w`(J`MZsLLA>N&uEE1Ubw_WRVk0Zae-;-}
z?hgJ$ylAhH_wm(zMrLBu{YHl2c05J>5`DnPJrt<;nUP<JBMusQ3xhvrEs(zs3yBYY
zVdPz$aLC9f`rKh7ckmqQP@ntKHDuyf?(X;+UnW2Hh>`JFfG=XyQ6qD3KKfEgG&p7?
zAE%=BtmSdn(!0JkvW|E@zJzfn+)?@=4k1qX#$DSRu^(~Jw{C7n;#A@izeBz=GMM-`
z)HRcGl0{6%4xeQICzDa>w2>klh`I(s&ltIl>+ukN@V$}F6v!<>;{9ihe1z3X*^cDz
z#TmqM-raID@fE^vP=`F_f{`xxBW}jni$<7!xpL8G<Sxqx#1AYQGB*C??)TE4-4NEh
z>~6hWoIt^^QKzieFGilm<9Hq$Uon!7LBF~KW&-MwycFBxQS6O1esjBFIL;^D=_7H1
zMAB6w7qRK@Zu`{ygAWtpGdPZht+?h^Z`gIWnrETzhL3R;*1h45>h-9X&n@hQt!^55
z183t>Y;em+2JXSv(bxJfx1Wnqhx8BB#kb~fcK~(1?dG%qGszFTV<Z>nVLa9lE1zL1
zPQwR`^-j_vOeFprmtj|Hy+wB!HxN%OWA#(dCoKc4u%0A|d3XYwma|d;N0+x!8z%)?
z*-wEb6|A>Nhg7uQeO|MY_4a=u{>|^@DqC;A-&MtWJ#2?V$zSg`^ls~|{^?kj_g=*m
zoy?n6t%Q=%E6B=G3S?Ka-duMLw%%9l0n`SptZpTc=SGHD?<;s*4eKq=oO`V7<oCpy
zR({00@3r3Iy@kcZH*2{Dep1`Ycf>pHv)-+__<k!LbTJ(wp_fc>sP#^&HrST<Mbv|1
z6$Vgo_b@B<Fex0#A6v(I*XR-)LwpSDVE4N2eHmDlcro6C`FJ0GijA=ZeUT(8M_6yQ
zw!|jHL-189T7-K2hS#^!4HHo-eg~6qH$IH_Hn83$)&uqW9*=s)FGpSV!I7?9I%<7$
zP~W>b()zp>T_7WjjDUu&2lX(7xD)E-lY;u8F&dlUTL14SQD1l!^@X(?xpMKSw_HDe
zJQ}MJ&qVFOGSqLw;zmAKfoW`|KRv!5b?7HXS??2S2WkU;LLJ)j(X170jG7;hv6zOs
z?G~dRG$*hf)_cIk15nGaLoI(8wL@2YB=qC3UK8ux$IqZXn2Y+M@Gk05@5NLMZR#ra
zq4w}CY=|3BhyEm{Vwq;v+nxh(J#hg>;q&|*7lSkKA@uDev6RGh9Epo!tamU}Y+=0*
zkUZQ<{%u@{TOPFD!P2v(m21RnQ5&)%)(!1eyiEK(w!%XXS?^>FY-PPWAsgG1e;bqa
z{%`lNm3?F^!qxafYxklmkGK}Lz{TVb#pPK3QP;3F*onAW8#njKs6#pxbt<;_^RHt9
zaf7yQk!PT;nN`?K_x~3pw1Bj8bJhm+fgHc@VMpSFsB<0M-o3Dk-vy{sR)ShC;4#;b
zXuqkbYhgZWJx8!726Z5x`eh&qT}&%64tJq0l5&q*;VViSU`ygtac=)s@8}xP9CiEU
z_$@-cR)0mUD7v%tzIX<sj?4+vT~hf8*P%zy7fr@1B=ms-)EAbZZom8DT}3gdFPz|y
zx1esHa$PvVumkGvQ&7wALLI5UP#0&51h+U-P#choT3=xT`(L+PDH&=+S9bvQM}5H@
zY=e8T7CkHbBtwjK65Wv;-_3fTQq{Y=2IZpe?`^1;Qwi3==%=h4!9*;@h^M&&uzU}n
zyS47_;r9C?)T6Q(b(@?*z8NH_ryI%}Nmk|)4}Qja|H-)B%X(kM$9lWlt!%ROJ}wvH
zHp)l!vEH}jCA>mB=vgbfuy=};=~%n{bFL*T{pRC){ICJbV4uG3_r8A9{H9|$e$Si~
z7+Dk;Y4*fbO|9Q>(AdEv`lV%L49{qknVNTMsF|+0W77xs|8H(lcDkw5WnSrmsztLm
znoz5$yseu|lZrf<{d{^>8byn)ZZbIm^8yA1<&A7^gQL#vm~v^^mh%hOh4WC_=n-iz
zj7l58b7v>!o}ae;+-rrJKWO+Ut+i;I`7n@hXxbPJM{YNd{a?6wyXp78uqbSY2@BWQ
z6)x&{+KlT~i8w1G-FyG6yr4*1qv%W%J1|W1Ul=}M@JoaEsi=FRZCo*!tp7ARymZqH
RZDL+GYr=|FC)*DK{tXnZXRH7K

delta 4835
zcmX}wd0@}=AHea~`|WC@HD%`K*eupIccYQpY|$n}&T<UHewH!!9N(-)6w0*~p~i|7
z3ghQ&%CVAk$q_4OBq1cF-}Ci(f9tQu`}O{QKJWYZY<IQ?9N!+WK0U;jEh4ESjNHHr
zSQbyF8>xzC{mQdO9=0OY&=`>?GI$QVj53miJx3ck%=3pcja<Y0F-DHz;;}~R<LGfl
z9^|>@c!aoUypfLh`UK;XQzTALFwz(IOf(YCgJF}5TqkZ#>8Thy*~ntd!$+~<6eIDN
zh8nNMI(QDNVa2Jg;`;a*<vop2<VX9A48X3qp8WMb5=A6ZrW=XG+Rq#5k4Y~WS%Ir_
zj5OAGrjdTUIPFCvZSVv}V)a=@_Fz0}1!ZR&X^st08<vJ4yq}L1aO+D(D&pRkjr_##
z-}&Yk2_mCtu8}Huc%G4lc<~iiVb%G($b%DcKjvUBe($`%#RUr)TJkd%k&pASF<wO4
zE@6v}#1XH|HIj_Sv4s4nJR=Vg`|f$&NHY=*u|E#SCvYEj!jL7dCxfsD@lw>GzJ~f<
zjis*VJ+VFUG>pX}Y=AegF4lg-NF(fuU2!^grhfU7gjN`_%)O9-`rtCuo*cq<SZcXz
zNFsVIN3Ey;_4%Wy4GLu5bP={kor<_OjpX8J%)x-ST>d<4N&QkxLSHPG?`(?^#FJ2a
zv;?&$r?4Idt#l1*fjY+-s6)IOAHfoAiIrEmo_EKGiG8TMVFT)vox(`!7h7N?8ly2B
zpG0lYXl#vZuonL0_ujXSJVpF4&cYek1cTpk<s_mubR_D~FF~EMeW)F}<~MG&5nl^3
zvPftTH>0lNvsfGNUE}s?Eb0_ZM(x1?d<<`)PEqT3-IQda?uyq?-`|Bz@r>W<YhC;l
z>WIC(mi@0i-b02C$!XLA%D(3cu7_ITKuo~7sLy?cTJTNOHPGOFH>WA6<t;^>itVUV
zdChO7buNy>81j3s^SPF1laWZqYHWyCuquXgO6Y^l{SHB`crNOQ?e*v1z?#J28=P%1
zj5r0g!Ox*iMLz0O9zvax>pl`X_hBEnq3?h-h%;~~&Ot5UH`D?`KXg59kJ`g&7=jzI
z3KpY|)M?a_iQeccdK$ICGf<z~gj$~Oa}t$F{DHcfD{gW>B%|g}Ks{3DqK?cO)Pj!T
zSPa<g-}m?eaS`sr4uwWu$NRRpb7Tz;BEE&Au<uqQ<8=RjN@6M*?fz$E0q(-_*nOKj
z^NUdrrj+eQhT(41RUEy;J3u5I-zDCLNjPk$>%a%79Xg3R!c}$|$-s6vA2(nh-Tw)@
z-F92%_Xui(f<H1+$<TAWN}ONhT(rl?A>x@Iy9W3A#2vktFrWPPdyTxtd*|_I;_3U1
zyn`bT7@3Qq#YUdR0z66mQt4A8p}cS%uMn3%Xk-cA!5ZY}e$H)0yy=jUl{oYZBOmE=
zhmHJ=2T_Om;Fqo;!@qKO$8MZJe%RMWrr=^6jt_ie<W-!4zJVlyzBTe5W}x=0#u3-j
z%eans%6CRaV!fm8C|!d8C2oAoUE9lW0P$_qx$Se@$V@Eu+wFvrG~#2ZYbN1)7BL;$
z`aS!<7a6~uG*XD2PPrj1U1H=eaUOnwxjz``zzf5FMB??Qjcmf-u_^iQpD{9r_}p1{
z%Z)u}WIFL~)FF>Q@7Bg)+)7;if)S=)zP;cxQpPeg7ddFiSo*WO--|E1Aq@P*-Fm}u
z8ZYidow8O}jC8{tcn*VqHIk0EFan2Mbw~0HY)iZid*h$j6?<GWvJeY=B#x43aoxxT
z4EfD%pSxH@y!VEY$uw-%O}Bc>{O<PiIMm&+0_Wj9x7|^lhkE(^fI6~ae;8SW<8cL6
zxML&}-@}*CSMyJ|pVy)e>2cJ>_v&Bn0IGl2&FMlMLw=dRjb!5_d>sG8&+sv^-evTF
zvEE7g26iU@G`@+k)_RNXYurdYw3O9PJ)cx7ZH4tDEtrRn7*ftkAojn<N;OOiuu{wm
zIf2$&q+QEf?>@haJ;`5O!OCBF8Fjy3y4QL=j100ef;i7_>HDm=`bS||$~}tD=wy}z
zTL~khRYfb`@WM0qTW_voAF$q6>;}{Zyj;mj0MGRbvEEm3N@eRU&cUHpcJq6aDpoGx
z4b;W^!+)&o#geM7fp1r{a)NkOb?e=l*)^=h>tfnWLNA%ySO;r`S?}KOjCyd)!O~P5
z7jC6Cwy25Z4~($hHJXEyh__<|#y#lD>y5$0*%*oousXhrTF-v;MUl8pq6t>3Wxcb#
zE6$)IAL{j6HquHLY=T<x3)ll!qYnAs7>$oUWWDQq5b8PbBI>HYjrv}<DC>P+Oh7Gn
zd6e~eEjma>I2jjFdk`3Hy<4pw>g5xU`k~Pu8{vHa?|V=?a1^yb6XV`%h<eK<`s4n1
zKk-=9hRj6$He4Iya}}H?V-P(qRmTne(7M+9gj$8#fG<%S_6vq#a6Omb5aWoGQMX+-
zCgCn@gMsy3oP_%RBGmT_Q9JalkA!|41~#zXecTfD!QrSM3bV00zK;XZHgpvaM(v>w
zb?Ea@znnh8fp{Kudv<JO<pZ3Lbup2@<6?0%Hbvh`5-UiYz|lB0)_MoS71R%q$&IaS
z#~(2dmp8HA!P4vzD>sQ>L2by)I5)H_@E77wuo-S_YQ2;3GR`FK+st|=;*Z#e`lZ&R
zRu1sPR9u4{n!AFop|&uzg_Wh)1>eG-Q5!a|rS(2SZ=%k9t5$AEN1#r{a@712n2dp~
z-6HRax@KO&M!Nq$B%v>yL7lURHtvBGzq3%k4L6|9^)1u_8?<$1p-$Oe)PgUd&TViz
zX98-u6H)8gf=}TM&8L1zig$B58xx2NP#4K1EHt#dz4gBJiW1!Z{T;OdA&GALrTATf
zdaZtgT2XKZ>wWP&f!d%Qs3UR}wL{?@+5h^7LMjP;U_R=8-isk9kGqO0qZT;GA1_DU
zK9?{aA4+n+r=h-IfI3nosEac+*)7hts0|p3THnHC_J3;<`^iwtb#e#LW2gm;!&bN!
ztJ1TJ7>Q*%yCb=77wdgW-9&BBkgjg+EJt1aA7catJ!$1@Y=md9OgHWTyx7g>Zmp|i
z=txZN?vBcLP`Al$<eNdRV+Qf@9#$3-C-=18e=<sXS?{ZOOK*3(UBFj(E~}4~9az4v
z^}Zz!;IG6Tp0-ki&7QF`8}GCwp)Hxw&p8KI5ii72*u1~XZ|yhHZzn9r@7<pdh$;+-
zGW!yOBBO_8rHvYpnwgoA88argWQ3VbURHYApnviTv(in4q}(IROx41-Hk<pcCW97~
zOemXMyv0NZL`IKKNgtQW%LBKXO1b?CO@+c5TTQ>xxgGOOaMO9&=N7H685un)B{SvO
zm@zfa?#lV;&28uM){&Pwaa8Kyv8h91#+-gG``oOZXJ6DOhh>bVumd~Hhvg!pN2E?7
z$k}Py{Tm$GX$Jfg6gJ&u!fO(FFBJ|rWhQqa8kd<KGp6u#1M3S9jEo+fF(hr|FfvAV
dwsp!^{I|h1&up2a4ax0dO?Y8(AG@LS{{c=4Y?J^1

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index 2a7291b..3ad4b7b 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -533,7 +533,7 @@ msgid ""
 "GZip-compressed responses have a header that contains metadata. Here, "
 "that header wasn't valid;\n"
 "the error encountered was \"`%(gzip_error)s`\"."
-msgstr "GZip 压缩的响应包含一个包含元数据的头部。此处，该头部无效；遇到的错误是“%(gzip_error)s””。"
+msgstr "GZip 压缩的响应包含一个包含元数据的头部。此处，该头部无效；遇到的错误是“`%(gzip_error)s`””。"
 
 #: httplint/content_encoding.py:164
 msgid "This message was compressed using GZip, but the data was corrupt."
@@ -553,7 +553,7 @@ msgid ""
 "\n"
 "    %(chunk_sample)s\n"
 msgstr ""
-"GZip 压缩的响应使用 zlib 压缩来减少传输的字节数。但是，此响应未能解压缩；遇到的错误是：“%(zlib_error)s”\n"
+"GZip 压缩的响应使用 zlib 压缩来减少传输的字节数。但是，此响应未能解压缩；遇到的错误是：“`%(zlib_error)s`”\n"
 "\n"
 "%(ok_zlib_len)s 字节已成功解压缩；错误块以十六进制开头：\n"
 "\n"
@@ -2207,7 +2207,7 @@ msgstr "可用的字典标头具有无效的类型。"
 msgid ""
 "The `Available-Dictionary` header value must be a Byte Sequence. Found "
 "`%(got)s`."
-msgstr "头信息“Available-Dictionary”的值必须是字节序列。找到“%(got)s”。"
+msgstr "头信息“Available-Dictionary”的值必须是字节序列。找到“`%(got)s`”。"
 
 #: httplint/field/parsers/cache_control.py:204
 #, python-format
@@ -2217,7 +2217,7 @@ msgstr "The %(directive)s 缓存指令不接受任何值。"
 #: httplint/field/parsers/cache_control.py:205
 #, python-format
 msgid "The `%(directive)s` cache directive is a flag; it shouldn't have a value."
-msgstr "The %(directive)s 缓存指令是一个标志;它不应该有值。"
+msgstr "The `%(directive)s` 缓存指令是一个标志;它不应该有值。"
 
 #: httplint/field/parsers/cache_control.py:211
 #, python-format
@@ -2229,7 +2229,7 @@ msgstr "The %(directive)s 缓存指令的值不正确。"
 msgid ""
 "The `%(directive)s` cache directive type is %(expected_type)s, but "
 "`%(value)s` was found."
-msgstr "The %(directive)s cache 类型是 %(expected_type)s，但发现 %(value)s。"
+msgstr "The `%(directive)s` cache 类型是 %(expected_type)s，但发现 `%(value)s`。"
 
 #: httplint/field/parsers/cache_control.py:221
 #, python-format
@@ -3360,7 +3360,7 @@ msgid ""
 "`%(value)s` is not a valid in the `Cross-Origin-Resource-Policy` header;\n"
 "it must be one of `same-origin`, `same-site`, or `cross-origin`.\n"
 msgstr ""
-"%(value)s 不是 `Cross-Origin-Resource-Policy` 头中的有效值；它必须是 `same-origin"
+"`%(value)s` 不是 `Cross-Origin-Resource-Policy` 头中的有效值；它必须是 `same-origin"
 "`、`same-site` 或 `cross-origin` 中的一个。"
 
 #: httplint/field/parsers/date.py:47
@@ -3672,7 +3672,7 @@ msgstr "The NEL 策略缺少“%(key)s”键。"
 #: httplint/field/parsers/nel.py:104
 #, python-format
 msgid "The `%(key)s` key is required in `NEL` policies."
-msgstr "%(key)s 键在 NEL 策略中是必需的。"
+msgstr "`%(key)s` 键在 NEL 策略中是必需的。"
 
 #: httplint/field/parsers/nel.py:111
 #, python-format
@@ -3682,7 +3682,7 @@ msgstr "该 NEL 策略对于“%(key)s”无效。"
 #: httplint/field/parsers/nel.py:112 httplint/field/parsers/report_to.py:73
 #, python-format
 msgid "The `%(key)s` key must be of type %(expected)s."
-msgstr "%(key)s 必须是 %(expected)s 类型。"
+msgstr "`%(key)s` 必须是 %(expected)s 类型。"
 
 #: httplint/field/parsers/nel.py:119
 #, python-format
@@ -3695,7 +3695,7 @@ msgid ""
 "The `%(key)s` key has an invalid value; %(details)s.\n"
 "Details: %(details)s"
 msgstr ""
-"“%(key)s” 键的值无效；%(details)s。\n"
+"“`%(key)s`” 键的值无效；%(details)s。\n"
 "\n"
 "详细信息：%(details)s"
 
@@ -4462,7 +4462,7 @@ msgstr "该猜测规则的 URL 不可信。"
 msgid ""
 "The speculation rule `%(url)s` uses an insecure URL. Browsers may ignore "
 "it."
-msgstr "该猜测规则『%(url)s』使用不安全的 URL。浏览器可能会忽略它。"
+msgstr "该猜测规则『`%(url)s`』使用不安全的 URL。浏览器可能会忽略它。"
 
 #: httplint/field/parsers/speculation_rules.py:51
 msgid "The speculation rule value is invalid."
@@ -4737,7 +4737,7 @@ msgid ""
 "the client doesn't explicitly request can lead to interoperability "
 "problems."
 msgstr ""
-"这份响应的“Transfer-Encoding”标头表明它应用了“%(coding)s”的传输编码，\n"
+"这份响应的“Transfer-Encoding”标头表明它应用了“`%(coding)s`”的传输编码，\n"
 "但客户端在请求中没有表示支持。\n"
 "\n"
 "通常，客户端会在“TE”请求标头中请求它们想要的编码。使用客户端显式请求的编码可能会导致互操作性问题。"
@@ -4770,7 +4770,7 @@ msgstr "字段 %(field_name)s 参数 '%(param)s' 类型无效"
 msgid ""
 "The `%(field_name)s` parameter `%(param)s` must be a `%(expected)s`. "
 "Found `%(got)s`."
-msgstr "The %(field_name)s 参数 %(param)s 必须是 %(expected)s。找到 %(got)s。"
+msgstr "The `%(field_name)s` 参数 `%(param)s` 必须是 `%(expected)s`。找到 `%(got)s`。"
 
 #: httplint/field/parsers/use_as_dictionary.py:85
 msgid "The match-dest parameter has an invalid type."
-- 
2.43.0


From 637f92ce8216061c8b35a25443db97859181a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 22/67] fix: close the code span around the coding in the
 unwanted content-coding note

---
 httplint/field/parsers/content_encoding.py    |   2 +-
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173722 -> 173723 bytes
 .../translations/es/LC_MESSAGES/messages.po   |   4 ++--
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177202 -> 177203 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |   4 ++--
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196590 -> 196591 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |   4 ++--
 httplint/translations/messages.pot            |   2 +-
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155259 -> 155260 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |   2 +-
 10 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/field/parsers/content_encoding.py b/httplint/field/parsers/content_encoding.py
index c6b685d..d9b63ec 100644
--- a/httplint/field/parsers/content_encoding.py
+++ b/httplint/field/parsers/content_encoding.py
@@ -78,7 +78,7 @@ class ENCODING_UNWANTED(Note):
     level = levels.WARN
     _summary = "This response uses the '%(coding)s' content-coding, but it wasn't requested."
     _text = """\
-This response's `Content-Encoding` header indicates it has the `%(coding)s content-coding applied
+This response's `Content-Encoding` header indicates it has the `%(coding)s` content-coding applied
 , but the client didn't indicate support for it in the request.
 
 Normally, clients ask for the encodings they want in the `Accept-Encoding` request header. Using
diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 85a989b830aa7175d209eae388eb1e6d929d8aed..21b94a7e77be0023803413353d9b87e053b95e02 100644
GIT binary patch
delta 5372
zcmXZgcVLg#8o=@AoLeJ^i=tw4B{icpVv~U+wMoSaAw~p2xv~97+8|sj1QoSMXmQbM
zqpGM`yLQ@3hn9}3Mzw0R-{(E~>+?S6yzlv)_j%7s-acJq<>?|jr<U@?8<8PlM!MtC
za3l9bB%rO43@qBtNL$RpK+MCYXxba8fz9zM4!{T4G}1^BtQ%!y0XD%#cnmAzQw+v{
zXd_Sgy{Ks8lQat2buhAuf)jX?cvvSRuVPeZBU^DYYKH>57&(qRaVk#gYQ*r|BfL!f
zM>iwe@GNgr0H^dYQV?h2=Quk*j)^f+h`4Wz&s`)?P?&-d`4!`F0S!;Z29y`;Y2+1b
zlkXU;O}rK(@Dw)260t5*?NQ%!B(}qq*c!ja+g7A%FC%k_{d|3myurm%)Ef%-GtvSh
zu?eQ(M%;(nabTRYM1Ldm=->hT7v&xKj#Y3BYUUPVD?EhtPzD;Q55cJI_Q&Vw%i`h`
z7fT1ZZ#pQ!NL}Jt*n%I}gRSt_!A3@5@K7T!QJ+1`NH5%jIyU?h-48XyNaBH52Xjy}
zcnLK_g@+p{hpmwe`6QN$Tnf@L<{u(qNk;sLv-q_DT!Wh8TnxhJsNXIy*+_M)hx$fc
zF$!nn9z2gaNYh6f8IRkrH!o0ijFFYZlgAnv&G?hDZ@322#~G<a#eA%a@8TZ5)oJX*
zgQ+RJ5q>p+L5O~njQHb)$wsp)H>WV@FnpSkP@a#PZe$J4!E%(>W~_B5j+nul6K7!z
zzb{8-8relb`BYMgr_+p#qx`{}MvmgJw~Tba;B+^bCZneQQ`B!AFw00~?0`C5lduCF
z-+@~HWR9CX^)ifHr~MCcAoZCHARk$m-{u?P9vQHZOi*!W5#NybUM4A`fo4mM^u!$0
zu_0M}8tUs|O~S}!MnZ55YDYI?Yw90hLu{~uj^NO@-E+%VG8Tw;Ws`r#o!n;fYYIE8
zHZqw8-dkg&B-UJO<Qg`|8`PIxXXHELhwI&-y0*bcI&ra$M!H}oKIFb{F^2f+W+O>h
zZ;O#Oyx4MVrsZ2*rb=z&n@p!5cAJrYcp2lc;k&NEMff`L*QnF7$$LiH<2clnEf?G1
zU2KZ=x4Vud=DQMg8lFM@WW{zEiN+z=8+Z7)(A4?ubT@|PI~}`G{xNpN;{PR;H~?E>
zCh8BLL!BKZ7(ius^BB}0Oxo?%jV<^NapyhmhkrqRfhO;}LF${%g*J2mbw&FNJ7et+
zT&gCaPOshA9DhQ+KWMLWD25Yn%J&Xx2kU<5o*Ry>iPxg8pf~d^`H@%dlW;DyVkUON
zU8oC)<hm6r3blSBj>R0@jTQE}l%GXiU<!Y1<TY%8`f1WpGqw-4-MgsMuho9n;e{B=
z`XgU(q0^-FC+>&Zqjq2d#^M3g47_x}O}{SKgLo<G(t8KBgZ`ho47Nti&~VgL=b&cj
zSJbi8@SwYI4%X-QWe*oRc)mkTRi#5Nh5b-R^$OJbJE)sU^~26Y)D>?#Y6gBso&U8z
zGg1pj=er``!>H~2g4&^=Bg}st^~1T)hL55?SnQ~q=OL&MBw$C(M$Ob6)YMiu=6<*f
z>L!zl`utAR&E`7lnqP$FQZp2aI{n6?j-_qKng2TIzNbJRD0#xj6bwV{;eON($Vu11
zX8HQC8pTIY7o;Ch7oO6eJL6HGdlxmMw@}-wamr<O7*-_SaLVVt^+5{s4g5~KO`{3w
zUeFJ<W0O&PycOr-E!43w_KaKOPoO{3FX^n2lax<9XCwh5&Kp^dn{hsdUNABn&*FOQ
z<@>_O1umXqu2x)hamFPh@x*bLou8mC!Bwsp>5nOR6fa>YW?yyl{wvguR=DOe&=a$W
z7og6XpzH1=bRBhU`8MUbi$}PSg7#n10B>>yD`Kht8E=WMf5S*w;>9;zM{~Y5GMxJd
zf8&l`XRxpp+4wD+5%+DsW#kO?r@uFH1+#xJvH{26cDrc69V2OsKWX<Pn+Ok__{p6}
z?*Gj6BEI(vXE$tj*T@MT?D(sZXIS<g^PBS0_l@i)j(%Wd2^M<jmhx=OA+GS7d+rFn
zL%iUTk@qn8ceiJJiMMtBC;Y*Ig9bZ3Hj>E=J^wWFCH{!|t&Tl0@(p%<>K<(P%*c7-
zTwILvo*P+*RsJ$^7!Tp6m@d|9FVa}=)8^q=ekaRX8Ag5K7py$g`9Fq>k8nr<D>2+q
zrJ$AKIG(+j#ZA)4Ya;b+idcDqTaYzNHWanq;2Pxb8hnB}*b<6c@8Izi2NJLPr}a+1
ze_;}z=<^a*KE{w2t@v_i=s_9lEgY*}vNDeczQGh6UCw$(rSDNkZ)$+`w%d~Bt%UI0
zavVkZ*$P%du~kLuEw$582iGa=gB2^ecmiG|K8C{c*_Ex&OZ}=UR$ioFb5$$%xnW;5
zD{OqSy}I@OJ{VBLdJD+6IF$O*fmU|l6x3AK39{a<mx)Ql=W!XfeA#-R<Ra>{U0&0A
zW1~hbUV!*aEuWQhTokBHO7JpH#mqWZ-og@ft!%<9T!pRbxi`wg=fokw)*F0{>$~!k
zsIwyQ6)UH40UpD+SFQY^<qfRF@?w=6T6vu$r1%<H@91?Z#7Y<yJ)2tZl)Ai`^)hq6
zxl7g47FM><z_XUtI~#6lWxXR-`PSCkWO{SFnMM5?%)pwVR+i#!)Il5_X1!T+0X2h#
zBCPi(n=hFQo!5ifx*wd>&U!0ZT6;z(H!h0gn^K=1Wu*pQjJ8q|AHQb314q%0R_YR0
z>twyZ7dm%#gEym#du~NnE1jwTp_}!#-;f@3oOb6RyQ)u)b5WB5iLu@aR|^jj&cHYx
zj37@-aBWZPZL1-@thdjn;9BlGh`ReF^!6H*EG$8M26ailfw~F#_i=+X0yTaU`|AA9
z<w8$9W&1Mt_@N;fOx!EZb!-;uCbbhab$O_}VR(P*opctUZZ@ZI0u~rxB^jrocI;==
zvtyNb>mAklqPDjh>*)MH$%Xdx5e8w6f$oM5_!@Bv>b`yut7E}Iq#SFZHrx}-;bPQH
zYa3R;6Icdsp>EetuqD<{u-@N_Bhj~)H=f5u3>9sMxCU3CcH|Ojs-B{Lq6R}<X8Ph_
z;tU*wcd;9GA7;H>Zv$$3g%hoJ9*9GI!C4rI?<3z{o+UE>HARhwyEjWjJz&hm0k|La
zhbpmb>3mJaK>P?b<u_0d7Uf1*nTXLChKEo$n-@m9AI`z{#8>jIJj$&LLq_@B!cZ&O
zdVe&&kLlc)G@AKIX6~WR<H)gYJt*@ADWrTQ22g%=ob}Ft_f^Wvj<?=%z4^aME%kG8
zD;7<0-~I!PCH@l&aesH;1UC=+Ok{dd(Rq?f^*FpnoQ(%CWwMnK7&665IIcs@z%A6l
zSb3@&D<e?rKfu@VG3sFMGR<{hI_ml05cWXdGcI~_(QUeWa2x7b@c%dx8<8RH@mkbR
z@)-4G(|d*+RQpi})jiaX1kZHyd<yDwXHeS@N_8vb3=AXALk6W!Dy6x3-wkzIY{6!h
zV>#-Z_@}!!=!#LqKGe<SIBG}B&2rmnf7CPJx!KnHldj?%*MXJTmGTFun^D^g*YVZZ
zT|d$nT(qSkXs-4Cj2?jli8D|i{28_3R`Z;5Fpl^V>blYJKW_A=qTYWIb-D%4chj^t
zYKGELGjSO8xk?LIA$5?9<RSud^L?%r#Ni8ByBQ=4aViEZW`1K<rrYQDEOD9WwA4-4
zRT#~4pJ5{`o@M0`Mqp!}Yrf1%QQ|Snt@mHDspt!%pymp<U?iaqs&r&glmj@QxO_GT
z4;sk9Vz}`gw=V2j?PkqwOyj;)Ypmp9wY6>*JwrVUzPZlIEy~xgce82E2J8K|Eq0>~
z@&1<+ztPGI+?a?(xN+1brUy<$Kb(<o1{Ne<lIHjFUcZ;krt&6!){Zc<cSo3grAvkQ
nz?uo82M<pkR%={*)r8T><A)@VujfjZ1y8f(_Lf>?XP5aKFK4U2

delta 5370
zcmXZgd3;XC8o=>qrYZy%H#Zf;(n=aiD3z326C{=jD)u$8M5v_pHD2U~pp7++N@`zH
zYAd};RZ+E+sI8RxlqzkyqqJ(hzvoQ;`krUzoO$OwXSO7_z<*hR|F)_B_6;y1L!ykl
zhMz|pxg{b&t&Pk@|29TiV>X83C2WKeV<ZF`<JZ_9|HPMLjre2jwnpY-BsRpu7>p0F
zE(WzT@{r$)ZD)LvPC@GqM&701C|)HV+R;dTjEyt05htN`D5R5-qqr5P;>6BI4A0%g
z^TdC5F|r9y@-|Q7<gP}F<8(ZZvy0-c@kacJd&m3SMIr?yC>UN;F$U+;@Dyx7d8zJ3
zUc}}_rs504E3p+G#|SLj!)2-s>YI+hHn<F%<5euQBGq~tnMYj0*T=|cE|#F);Mdnk
z6O6%^aVD<AJ-7u2_H&l)Z{$rnxDRVk-eI7TYM6?ex%t=(4`4Vx!Fm{;;M(nnkBNQR
zT%6!yNuv9v34@H(A)bXz_<<eR4F4ExWF&?UHBy24+$1ACaR=(yC_T*mPy>u59*DIu
zA2oyLP&4G0Y$OPqAsO;XcP{o&kb&_}iL@MUq$F`Rzg7`fpr&{?K97%3zg<X*k>{`u
zYNk42TbzwM@f7MH%}6ye7B^xqUZC0=MskTKjWUwT_>;iVuEC5kMygQp7FNeixRY;n
z0(<k|jPbk?UY@`p#1fN?l)=-JjgUmSGKE2hQE5h6@_g(xBP%fzgD9`XSbL2)dOB}T
zoQ?7Pz8soi<O2#S&Low1BHhRs%5VSI$YC6sVWb0w&vJul5^Cx{Mg7)6vyD{6_Ndb}
z89UJNEvWVP=eXHZXReV;w7&}zs9(eY@{x79lVyZ^r2hgkK}F$0z9I3=#iWP^8f6>l
zj`^r#;|W%zzRuf5Y7)of7>UGG)Q+yl=G5QDm$3djbOeVibI;}EG8Txp=aGNLo&3n;
z*A%v2VPrB5yuZ>&c??@+<RUi4E7S+9HgcW#&oypPeZAJmEaFn@jC8_9c!&G0VLb7L
z4Mv7zoqQuLc(EL8tmPYBrpj;Pn@ppi`z9lO@hj|y4c>PRF2HWYS5c>B<Ypr=I2v_j
z+l?*ocWi`px44ca6}b#`8Wx~_vQk@(w8O#J3%B^V(A1UK=5B0JWEys%{A28lWww(_
z?2k=x5$X?ri8?#VGJpbk^RB2rn7qTS8yj#ramStRhkr$VfyfWtAoZnjp$+XrUC|z6
z9M<}uOVvcw>Gc7=f<L3)AG*sq1fz-96<LVd!P+0W=Z0Z(;+3c?=#?VN?e@xj62*m9
zOvjG69d!YDg1TbG?s4@Ka1?Pq?!ZbPyOf_qU10q78flNOpnjSR)Qs&xZTEN7>DTlV
z*WvltlJ!T<aG}#AV4wS;HmDsKk3Dc7Y6hP9)J?xQ>`J@@b?GfceSy;ZT?U(>W@s2{
zs`F7Z^atu#YH+~amx=ZGec8c<4xaB(Qx$yBrLYg`s9uU%Ux>PyJo}k533bKWjGBSJ
zQ0ITGLq=+0N|8&8Jc!!Puc#dg{hax)qkb3{+VJP750*OY=6M9_1Bv)5=Ave*5H+=x
zj<_F=L)~O%pgzA9_0wHMUGqz_Txy0|piaLxP{-27qs)IDbT=r_2g)5YG6h?r_HZw1
z2cDpIu+bOJY4|MhA=Cxw2h@cp;J9-D>T{b=GkP7hy&5N6W`|-h@tPAp_pSF+pl?v3
zz-=0lsCz*l)Q(L;?eTj!53i$+jW<rZHU21;VfrP1Y2*vaC!8`e2%}FMS&Hj13tOBq
zl8GmA4fgPzHFAcF2e?No&bfHbS4IXB_dW0Y1a%3ndcjD49EXST9Ja*Vuid=AjM~vk
z7hMLr;oHPnsIw;Yk~;}qL>*hcb>Fy)ySRXYHkWCDH#v{NSpHk%Ezxza7<q<x;Z@hs
z{O^n;bN`@g?&wv3C9KHW@7avFZ}SZ!C#gU2gOLlE`=gPyIHu6;qCr0yNoV{?>z~;~
zc;M(S?nH9ySEd*7&EGh?Ve3DP9OJ<bH;p{Pz+233$^&j2`GmObpGKBo@jGrQ&&BtM
zE8TU^9m3_rS$`SXjNyN~J>wfJ)cK!yj{^q{cKFB0Vs7Ym-^gYB3H4hYeqiJpc6#U@
zZ1Bj)Y2w|u2<JUEvKp&CG4dH6!2OsZ)@v`uSntzb!cqKAwzZN(y<agacXa-za<Ll+
zKW!zR8>$w!@-H02Ud-YqGs){P>YMvpd4L;`HA~i%vfkiIDB~Kuk2=^A|7E>{#{*0t
z&MRxZ)9+&(&L{e!oRz&85n#pl9u3_NwBEvzSHa4gJn$Wk$CM!J9hGjNj@}s+t+(Bl
zt7IjT=W=i)<tHm!X^BmPt+&*sp$@L&*c&TXaq)OOM|>EC=X0xCpO^Z)YE}X$SYO@B
zZEo1}tQ9ss+5DXK{yyj*V!Z|A8V;pCAk@lMoQ#^v7oNA?uD1w>6Q9ByY!YU@PjVJ@
z+UC@>-q@&7ix(g+sO7VAii=_|kP`d~r{bd8mhZ>5TF1(I%*J=IX}Ei%OZb>LqOSD@
zU&DH?{21!22zk*;0cPP5>|5W;JuPowr3Wuo<s~cKNWwT@L+c&Ajz?OFqM}<P>zz__
z8e1<jw_b6ndeFp5J`Fr<YQ3}Jx@OipVpVKzy-lVk$D7&IufVw&*3wEget<fN+eTS$
z)|^JoVDVPg`;*N#k_(;J39a1^PHbbnm274VqmvsK#PUt4&uD8U1kbj!QXcQMx88xn
z|5Yn>h^u$B-roxy<J{n#)5$%zw6m2s>VN2Bz3n%mD;=lZOk`K}$q_DUQt$+Ig{v8F
z<ska79}h;8rzN<uyY;r!h@RHl=f~kH?%R*L`z7}B8kB4-M_hoqq<@RL36<{c25B^E
zoQ{2T{_o~OPdtHr7<~NDV602rqo3>8EYwYED{AU4q3(uJ{jGP>$wJ+1j^hL@Ho!^>
zPDSn5FQ{k7sspWeRO^k}-g2z1^ZytZ+S9xEJl05XH?+t0#N$x+_5Ju9KAlL)u_kK6
z-7p9jqHbCnu`(XTK)jB+UEjy1Sa*>1{#G1;zFoZWJTBs?Xf?z&xD>S`=TKAi0QD2q
zAL=sG8wV55!9@HWyI_|j>+O1LP}}nxX1()3U(^?zg|WC3`S$W~81r9K)G*n-SrY02
zV=fNBy{JDF%(A8Pbq0pwN2n?P7WH6JVT6^5*cPMk0P1G*)a&kt^D&0_e34Z~x^-dj
zNS|96YNlB4kH(!iiyM<unV)3lCh9zn8Rgc4|BNPulrO`IlwTNQy))n~mGZ!`);q2@
z9!F}apNkvOf4uwlA7T&Uf6$NnyZ9!!dDv?r(~F9ZlU%At<3-|J{1nGcwlV@ErdWx_
zRj3)bjyf2tOm$;rIBNZe*bVQY4(7Nt*MT(D^T7e^ioS<j^x~rPH22^})T7pK_&UBs
zhP1~kQ9sE&)RRrm>26T%MIBT(Q9BYo!_D)_sLvIkwjVmvt&l#9BEEzSN}mL$yLsOk
zby{q|#+G9_>YJ3F<=&tZwk4j1y15)d?P!JBZd>h#dItP5(|Ui>Ri5KIunap>ej9Z&
zYBkq&d^x_RAL$Git*Ho|XT3k8hhqZq9MlJYL2bC{o6bz^M|=)--DvQZ8~rm-?>~z=
z-9ob5H0_C+p$yba97KICcs?tn4w4aEw8Gs*KGF)}s0FOu43hac6@wNrzcG8U+vj&I
zahZ5E+fCOzY{zq-VM8qQww1py8Y6hFagLQz#HmZI_g}Ip=!>Et>>amYB%=<h3}jK1
zeV9dDF^_`>4di2KT)W(@3)@$?S@R>Nb6?&{E8k%CRc;nNL_G_pueNf7^3`kHY|30~
zz5lj#UuPq||K$u=XQdc7CZRt!zP_I6ffKMK`ih)`#fcZEmkirgGR&;6G<#c=*|jao
rzSya9SZK{bse_YKl4^~qJ}5P1?2weP;jSPor(T*3+7+<SW(NKrIIXQ&

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index 3537df0..e98ccc6 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -3204,7 +3204,7 @@ msgstr ""
 #, python-format
 msgid ""
 "This response's `Content-Encoding` header indicates it has the "
-"`%(coding)s content-coding applied\n"
+"`%(coding)s` content-coding applied\n"
 ", but the client didn't indicate support for it in the request.\n"
 "\n"
 "Normally, clients ask for the encodings they want in the `Accept-"
@@ -3213,7 +3213,7 @@ msgid ""
 "interoperability problems."
 msgstr ""
 "El encabezado 'Content-Encoding' de esta respuesta indica que se ha "
-"aplicado un '%(coding)s content-coding', pero el cliente no lo solicitó "
+"aplicado un `%(coding)s` content-coding, pero el cliente no lo solicitó "
 "en la solicitud.\n"
 "\n"
 "Normalmente, los clientes solicitan los códigos de contenido que desean "
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index 1197a7c6e8024a0e9c8435c56ca74d736f230975..976cc64202033842147fc1c7900581338a4c3d52 100644
GIT binary patch
delta 5361
zcmXZg33N`^7Qpd+j+&#ij|f_0h#_jMSwf2#stJOa6F~?~3~3CZpP?RNuBnQcUe#EH
z(o%vJRW-DfwrG_iO&j8&rFh<d-}9}NwSIS>JDp*lbMBYS>>|6ei|m;AqA%8n3~p_t
zD;|5z$XyXB)5b_T7Hw;!4KBs1cnO=JX=fxDo8b>Q0PkUw2qQ%>w7rq}*ccn)aeN7%
z;44_BgOMk^uYCvOlW7#R?PO#X1t;(-aYAP!^|1Y$MmFOF)CyINH1ZYhz==3M%822<
zzwiR_!!Aa);2BzzAJe)SDS%V(B+m55(a}Z<68DMrxr2BL3Q;iJe<B6v@!*MApYozT
zTuZ|IjzMk7MtlP=Vgn5BX(R+=usKe~R`@w~#iwZUiA2R1ui;&NeT>ZD#0Bht{reh;
z!j0G&AECA=qMz%Ddww(e8(B*QI}9*Vo%4S%j@n}-<6K4BVJqSZ7>fI`4rXIp3>s*p
z9QXVBbMTE`7;mH|MhtReH5%!4nUAmI&x5HkR!%Sy#C02n8i~Oy)Sd_$=6WaswILI+
zE*?YeiNCQaHb^v54Bx_LykF8d*g?S_oKDvy3^!7kI5){iY5W_ti;E|_mh?p(yIH77
zxe#B)y{O5Wi>I*uNFy~+Mj4q5HBpCj3u=!x8)IY=`6o9y&=(GR+el?hLcMVz9<X#B
z@+afR(PF$a-pEmGpJpTgpPyueQIK-)7^#hE<WxKE-!$0>hmwauIC83yc*<wdjZ8Gj
z#Tec%b*CFSPQfhH2XvWXB!zO{Od}`oK58x;oW+e8kZz<8Mj~A(TTpxACPwJ_*+#li
z@o3a|<6I+4F%KW{{26pZFV0U{Kn1x+F1=@j%E^$$MxNuu?@Nr3cXE4~ks;jJX}QbZ
zObj8;|ACP}&eujwsx~X!x{!kHiMJv7DSsgeFWs5j;kYfsNHxq|Z6pj!uBHD|Iq0^|
z=rGCG>lqUs(BeZQ#c?0z;n!G}itXQE<OcDDjV{?f-(+M3@m<s$nY)?f;<}%(19A3N
zBS~0)o00OAuf^KLhqk-(x3@DuX%sZs!5HFh?2jdPx-lGsy@~gsc6F&tW&=i{X7^&$
zu|A58FkqKU(%1ctL|rjgVH94#))=ze&7NUC4#Frn;@5oQrb{dALHR_~u|9`dfjWEK
z0}@fYdMj$nA7FWU@U^{e-p74vWC7*ta1l26%vInxYEA_0Gtv=#u^ecPwxBK~xu_2e
z-0#LV9vc%c!WMWE_4-1eyPoKXJ&EU`E-W{(C59ew_a$OD@jBG`e+~8imkxT@`J_Jw
zx^%8Y?aH&LV^=!MO~W|9vvC6DpI{c&J>(vkhuZZu54-!~P<wO>>bj7F-Lc{kBhi?O
zTG5jj!TKXFeBsvkURaG2b5JkXg}v|*>I=Gk$%=^Set$&W1*;!*$=Dfd5l=<E|6|kz
z={{<YG(BcyFpfn{!Yf#h_e)VGzjjSa)UF@vkH176qyM4yP=~LKbiqleEjfewg5VQw
z?H`7%h*zLC<TC1z=KI<WWhiP6^+g?$W$26K;G+M6kdtnH_e5O*eW=;H3H63+s4cAg
zjjQmRsGH7Atcv?kUw9QmvG6H(e<RfAC8IWUxxf6}DdxX!IsvC$7dJ+oj!FJF2lWM&
z&bZ|3hFXyYSOL$X_Dmk?YzaQ=rd1m1hsSx;94P#)n^oa{)36-nd%yL$EIvnpu4JXZ
zb1jL$D#UN0&hv$+J#hqeT0KUcmUGS-`2@4EEYmOJypglSpMCFE&h!gLwiDmQmALkz
zTZ+SeFtU&MdmjhaIau(ckv}ozCnL8p?vjzQ7<Ji5Dt?8UeBoEzi|64P;v9^^eLuUg
zE&7YI9qNb66kLM4@c?$bYUEce^sBqim*YQZe$B{xoS1`&w4}myk_pp)b9=$b8;l`w
z^;<^1;JU8aZd(of-Bo-Uc3_EpH-|3gy3>CexyW_T-8S+wUdE4b{~dai^YM8!ko=Ry
zcipBCaL>pyE@*Jyy|BRpBln3H{AJ`YPXF7;LyUMx67qmnkBodrJmMesu^Il@$avy2
zI3GJaab5l+rW2<=HS!sn|G7`E{a8x(|L|vQHaxJqSoxF-1{>?uxV*J8m-s3EfwS{j
z??YlNTVxjTL(ITW^IOTpo&~I2#v%o+*YaDqo;a(J^%@Xg*m|2?)go2~QNFUMm8ZO4
zOn{X=_zZ_pkv(i-L0GZ46%t#Tmavk@`NA)91EwHrhm8K0dqLAuR^lkXf|_jMfmSx)
z9qf-wOItaO4{$w0^ktBhD>$^A72gIP)Q-I|k_&PxSlNUvD_R+ew{SJaRI=W8z(drf
zc|c_=q1?9##}QwsV!eebGT3@a`T^<!^*bhDSXEb%4S0e$e>E$0xc^Kw>yr{3JPWZ>
z220ei-YlqD(+YVarE6JP&J6`?TW=j$i?PJ#a3?l=#mXqWiMqtb)Uh%Um!eku5o(Ss
zuWRLf98u58R?J`DdYf8ieV>&h6y#8F7`HXB-X@dWkgm~k)Ui!`)yf)txshwhL42lh
zV=L>_CRY05Aq>>Gsmq0ic#immW>$*Opc^;>^O`f%3_(9%ODhW~I38}L9mce_G89+8
zW~BfYYGb`GpyF*^i=>^EcX;3$OyYcn2rHe4=e4(9*8hZB@kHk0EX={#n9|WoQ?8dz
zF8P|hVWkbRZ#4%x7Qc12-n=XsX}#&yHp(U2s4nCN=aaj-q|D;WGLZO(Xe$qR-kt95
z{u@24_f1zS#>x}Qqxr(@#C2VITWOE0`dIJF>1JOyR5kl~L*SF49Mt88HK-pF-{KXl
z(cjI6f&;9i@qkgWw1D#5IG1E01Fg68rlM{(q4C!Hq0tLpAYOu1@FRcuNem}0ILLb2
zc?3plU%kVDeoCFgVvNa4gZ(v3u-@i06!is*a5x^q7z`b1y?uT<wkAG_+SSDvSamsS
zg{vl7X@vt&uUmsP@EX?Cu?iUOdZ00uB_4{ka2oc*?Wp^Fu@P2Y#;#Z&N1{&0^;iLO
zu`(8W%Sw5yi={CVb>B}w{q|djdVLQ1*s!EXl6%1~$?n47k=FapAAq`j&OqJY51>};
zI_joVd=yEGv8Y4$5$Zbf47*_DXx9U4Q7do>-@w2zt~`DW^S=%St0>T#pF-WY^H3L#
zswvj{WSWaweh-7O`rB@ZI-^!_Hjc-`s6Ev@)q0!MWUNQrW~}R}RMao3LwFvGj${7o
zG`Tv?$}UVCZ)FOWpTLXhnKgKWxWGg!%kWQ(r~KVXuEN>xxE?9WbHXTZj5=hgldZgs
z=W#Q3oZ@=w0mc!xn92}veTI(%;o#sjD-}7B^{(sst9XF8&~&#z9Yfs%X8qfZ;eFID
zZ85`ozYWKtejgk~P3Dp_-HZC6=1LZJ!vA7p44dUD>PzK7Yjhs9>l&py({MQPAsmXK
zvuQalL5&}wX7|83?!hZjKf$t5*Z%Oi*84@Z81?!0QNNga%yY9K6T?`4<UR*_V}tqD
z`)W-`@=$i7zM#^3ZeI66O|E6w9dG$<xrn8i9$bXl0}Yp0nTpde77HwOW1fJzL}#M*
zK=EbzUglo}2io!s)ai8{wT0$=>;2Cr5r+^TK>ZmWyxg^9H0ty_jomQl1GmDBKuyXW
zsL6d3TVmh}H%p>%0P$Ar#rq{-rR$O*sPl6p>R9FBI$G9Zm6bX8ONN!_al{(y{iaJ>
z>snTPoy(ctsMBjIY75VxUSDv%l_nVYA2uP%BR{m>f5UpCPm`tE1}l{?8C&2&q_J`u
zR}d#`vcgxG<lAh$|9Jef#ZAY8+pHYqd<)bpe~j00!^c+UVfuErr<B=Y<tlN<omTc^
ztxW6v$K_V0ZR8!?rJxuuc#MU(pzv<%{g3BG)VQqQDp-IxbXwt%y@f-}hO#Dh#`e}`
n@AlUAW}gzV72}hWQU)ib)Q(RcG%P7$S;T5PZ13|KHaPJACFr$h

delta 5359
zcmXZg34G7>AHebV=Myt?mW(LZ#$qIso3UcH-1j{*$ILV|Tg>ruRLuP#S8o1}M!7<W
zB~cWLNOB|%t7Qt2#Q*jFetwU~9*^hu{rO&><Nf)3zQ66f8MNbO(6;f<`1%`>!BIv!
z<B?a5{3#-3TN;^xL9L9m#D!QDFJMEIXd|J}2+w02-oXZ~jRawMjFGumA78<v_&olL
zFJakOBae7r>saHHsT8zqV`K#dU*XThL)sasgRR>e$-=Ry6$<TO<SX2Y<8e$!BZm9#
z;W^^_os4Y8leDHFW^^$UfRpfRoaT?abTv|lxOZ2dJ4m1)kb+_U6R9|d2am%D%7ePQ
zmNfJGCTdGIVp}|ibupxekudCmP0)uea6fj&M`)fB>Cn@74e#XZV`Lg9&SEU~>uaPV
zZp3!@0JTNY{ajD{<#$D#ku_8>hVgrm^S{Nr9xFA#RiqWRpnNRW#C=#BZ(u7dlVGGg
z_xt*B@Qq$L&`1r89^}Sq6w>Q52VcWWgQ+oAPBc=M>(&o7(i0D&_C%Q^*F({$4H<_o
z;}O)J_!}Ex#4sbpa5y&R{gT1KHVSs(J9N#EWFv)%^HPkI!M{<vxcCUyl0K+oHyt%8
z=V3kEjhd`^cmnH;G*TU(;3TX*$_;52YL7NbH8O$xlN=88g#*)!RKYh;Z=8n*EM15E
z$(S*;7;lX=as*qCGg1_bO)#RfsN6&&wJ?L6ist@JlZ<dE`B)Z5OffQ$^67LV6HW54
zC-0Zq?-==#g6XIa=s3;DXv!x}H*yT`pytAXOm4&?GmP}X_DB~>7HUuAU~4@;(?}O8
z-UT(@INQh~%*TIt{<~y$FV0VzM+Lb@F3dMV<z(=CMhbA^=0YRno&2%b$PjLPeW}ad
z?HEQ};C&;(oUe(RRIe>_>q08V5N|>9Q|=)NFI}12&2h_0Bh@f(m61p+wTAvr=b-ai
zBMgfiTgRC2fF|pWl)$}s8;@Z*Dz<NfksRW)n_RN(|G>yH;@hY>GAoPZ;<_I(miWdN
zBPm$tLn9R^UyZehv$wkQe{5xd#!=8<8)Jw&F%C;@cVqY__9oto+SSkQU^ZX})a+h>
zI@VuceJrxmCF!evN1(2l%dsP##VD-yv70?ZeH=tmaLBLha?_<bcBgzC>R6vft-wpW
z-2;+PyLvNf%kN?ZdN68_oA>db7@0@;8eD)8dtC*NqUJ=IeMVkKUw;m?Mp>u}NgnD0
zOYe7Mn}7|7=VMbmj(UBePhC&MVh`fks0&LDHpB1(?!F{!PP_(n{$EACzx+Y(I-m68
zK$p&Cs9kvqb?kz(-878%I|DN){}{8e_Gj*a`KVoA{gAsa9<@iaP}hZA?1mLTH_{c;
zP%C;ITeJR1$-{1q?}^noF%$KI9oP#WpuV8<7p#bw>GwS9E*N&iC1YC*C!UOY|A(jx
z(jC+uX?WDgU`$6%!i!jk_e&6yU%RF$YS*Xx<HM+9^dD*u#e8L?6OKo1$w|}~gdB5g
z|4?i}{61<!enK5md)y6WIBE{{K^>As=<C42IsXOKzIOAwJL(EJ5jA@^q26#6wS|?x
zaTRWdx=l~Rs<;>Rg;%g92A**D*F$|?3Ti`__{&e9VE*f-Q{<%U;`*r5@eO~Ri~52}
zr(E)NMy<$Ptca&jdnO-swuF4^rd0;&hsPPz90>f*&8kSh8Cah3-QW3K7N4d-SF+&K
zt|ieJLOdLGp3g(=i9@K<>LKd1oO#B`F1&%|n0_n1H}Wm<CuiNtnR(90R^r>Z99RF~
zmf~jTjqD@--p9c;4(9%7Bo9+B7`cV<KN)!oJ6tr9j$fiCU*skC;@NnLI2SwO-pg)m
zgRVGRp?<hb!iBgK4`A%iMy_I^tL{EuuK%F%FGl8bVkQowB^9obOqltr+Y658Fowio
zH;f$Sx=uIUwpu#ZReTY~vcyjPjV|Z96M05{;JT-78M%x<;YQq-Pmgjw;WiB<|75|R
zZc`|7$H)^dh`8%s7;(?YUE;Za8##n;-#79AqaTojJfQhMMotqaKXf0Pk^dSQOMDXN
zV$37g<>zq*aoT@I_M$v?pI-a0wC?|rPuOgDU{|s73FikH>(%%LYh^a^Bm5m_JY~HP
ziFCHeY~uU46899evIDyZSh<LW3t6w_*Kr;3!9eRZAfd4JHoMRuD}yLsR>aDGykDfK
zmEG_dlc>lpwy?5Tv4j;8TN;+MGK}+q&u{~#B5Q|?D&=0#u(Xu{lwU+mw#Z;B8}Js!
z;leUjPU2l$#}FMZYvmFqmbc>Dz=K+`H+JBHyoy#nz^0X~jKu4>3VT$x-gm%#)TKGD
zij|t&w+Y7(pAE6zLe)OhdP%wzb%DBxiP)^FtH^phMqHqpmD=2YvYPctNe&)|S$Pgi
zRJYzNs9wVgc_P8#R+e%@KrQR71FJEf_%v?Ex-VH7g*m88Y>(Pj5^y1E#UG&N$dZ?>
zEWzYDR<>Y)2<vTX+ar8dKBpj;f<w5auJtyVlvn5)Ek_;Oq<U6X<MZ`hOAg=@jT=~5
zt2VUK7qc-~<3=tQ>f#yVl8vnd(V$;(IOaEDs2PI3zGhbDQE;@m)n8T8Bg)E9T=}Y%
z04&tfdS5`rTe%iJ!HGO@RkW29&R1w{r48}y80%&IkEj(-VlHN4F3!Z%*R3?-`X{K#
z*Ql+Pmc+i59OzhFYiGTAS*nBerdP|3F4;zQA~!gn(%B{DLB1@5iGS#7<sJ{Z)y>`i
zYj^8?(>>eM$|K6V@P*li>pJ$f5`)Y8Sntazr>`5T>ixVS@JS*EFLT2x)DMYo@e;lm
z=Vn7de=Fm7z{q%7KzZH(mt@rvthe;0p>8(e1FiQ%qbEL1{2qqj27mc+Y)%|7$a>p(
zG<Ma#n!tg6N}a}Hj7j;y{u(A)Z*xjSeZhQ8#%%0~;X|#r&%cdP#K%#)x+nvyE<vqu
z=rAiSFb?&)RahObVhtUuBFU}?>SH<LL=49%*bhHK-RFxAxAFpZ!U!CJIvv+yMa;u0
zSo94m6|gpz!S<;8{t(n}zcr}W=c11dOA4pB7hE3UE({rIz3==u)a~<K)cyTa)QbIr
zy6F@jMbct_)S=sex{f@?PT2lU*8{6jD{ukZV(C;@o{-A?uT8;n3bf|mpzhoGs0&Bv
zXzP74%|b2z3qvt1%?(jo)C$hPvG^HkPc=@r-X`V4I>fKN<$5X&^@}PSzsI04%zvFG
zSH@V`iAiIvOvV>7criV*3Ui1Hj<>QHf5(B8Po3Z@d}E^PkszKENqK$LAxoQNB@NGD
z7RF9?J#`lc5I32^5ODnp9|yw0fvHw1apK_HuIsPh0pddMxCQD6>K-utT{nhzP`k9r
zH0%8~Oh^4b_yRSVOHFq#>Wi8y2eA$Qi4Cw>rmLtgjRURG8Pu+;H^Z5M$;8<>6vJoI
za(oXpet??Y17^7gFGKwVyMem)N6xn1FRBHo&%cBE#nf$%n+4l3Qh)#7;XrSUm}|YS
z)=VT1WgF@XD$RHEx;JWaEy8Yi-EY$cEY0-beAFJOyU@xMoPzOKaFHAHA*f6AcGMmy
zzF6PO{EOy5TfPEydi{dhLRn(H|Jfwr5W-JUe};!FbuAf%I{i*y7cBF>Tj7#XlX5F+
za_3+(EWOOlk}lYvcr*6m{ZeGP>yp8!^K&EWSmondTGnKRm05UsrIq5CyxMxd=`z;1
zmK9&?a;6vR^qP#?!jq`i2duNw5KI4$O^EXL>#g_SuwLlXWU0ErN@YyJrZ^92ten7Q
z#6v!?!dIBsEbINp<DboLItF}b<sj#qpl10)yoT#PvN8uVx4J#0>^3Vu6UT11vL9>g
zu-<=MuJ5q*y@T5n6ypUCF^~%aKepcgc%DX$pYvM<1Bk<?77p7}ILvG)H*H&#*|ROm
lUhh+~(!dcZqX(yqt~GGPprn+<_{A}+Y|@?*D{W}-{{hA%wRHdh

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index 631da87..c534847 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -3199,7 +3199,7 @@ msgstr ""
 #, python-format
 msgid ""
 "This response's `Content-Encoding` header indicates it has the "
-"`%(coding)s content-coding applied\n"
+"`%(coding)s` content-coding applied\n"
 ", but the client didn't indicate support for it in the request.\n"
 "\n"
 "Normally, clients ask for the encodings they want in the `Accept-"
@@ -3208,7 +3208,7 @@ msgid ""
 "interoperability problems."
 msgstr ""
 "Cette réponse indique dans son en-tête `Content-Encoding` qu'elle utilise"
-" le `%(coding)s content-coding`, mais le client n'a pas indiqué son "
+" le `%(coding)s` content-coding, mais le client n'a pas indiqué son "
 "support dans la requête.\n"
 "\n"
 "En général, les clients demandent les encodages qu'ils souhaitent dans l"
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index dac8039ffe155b37af61dcc7bbb2b523ac36b9ba..222c07fb8e475511e6509ffc63e231a5a5f3fb65 100644
GIT binary patch
delta 5356
zcmXZfd0@}=AHea~`|VhoV-?9!mT1Bx<Yp#gt5{eYni(@=+9vn0d@*;n=^&BghvWz|
z<jR$?Of2LGVNqcrbg&%1=j;34Uysl0{W;#(>;3+GJ~tlu-hAYnmHMP7)`-Lh8|j7z
z+8engB2_vVnTft3MmpeJtc_=}Ihu|}YGF$}jeYPAHt%HQajYL|Bomuq6U@cxcpn>J
zl`tdssV_9lcqEO2kT;Ahq~IW4Bu?mT<P{9<Vq`UrMQu>+a3kMg7N+8uw~QF>`v*@F
z-|cE-4d&CEQaG-=k<vI358?FUI3mJ`5Aiz@9(NE&!DAE*E<Q0Fr}N-c>`Zy7NF$xF
zJBH!{)bh(X02@Uac?&;7?eR5ij5T@~c@w*1FI<9KN{IZ2vxzr)qK&NMphIsXv3Ljj
zVML6P2;74AuxuYA1z4K-I)hj6FB-V7ud8rtoRPkiUq@|Ncz+}B;6e<>d&RbjH}W>|
z``D8EJ;yny#zFZ6BTYF`cc8N`PNIAsQnyq~G%^pz4L0%|*Huh1G87wQ3tWM%@glyC
z&nCN(8i>Kf8&F5)4nB!>QjBz^erd(QuN0(X|B@oZhPXL9J={nD<rlCA`iyWD#iGvX
zeB^TZA8Lgwusz<wLTob9b;N&^kxz-Ea1I@~iARX1jM1F)Fw|q+18<LWExd=C<qcAq
z8s;hi7jWa#6O0_d?1@GyT9Pl#2t|@H#mEw@FwG@#7Kua8q{~br-%`E=dt%%ym$W<6
zX%KPC3?t*IUyfyxtvs;nY$H5FqCPT`PWgq8nPW`)gbT4B&DSI=K#d#Cbv@jGI`mgi
zle9KZ-^BBhFr2vNd?O#?P|T*hB)zFj$F{KKJVjKPPxGJPMBY*(Gw|GUBiAV(@Ff>;
zW5g;W3HT$n#n!8hgm8Ww1`_XGLl5yL>h)n?Q6c9K;tYIeog0~7*RvXk(>9Q-_(L}1
z&uB`cO-AUfY}!nc@qo}RMk-+eK12Dx*qny>Z8P!`ao7$c?KnT|8zYNx6L!alokkXM
z-AYU(?zG1>C>wWC-e|8|mbdniYn-p0!}=f2!OR>Z8TbgNV#a<WZ(t=Rybt!pAl!?(
zyi6|32g6a<_e>1KQ`iij|IVH7iNVC5U^JdY9jV3#jl7HL9u7KiP=t{fl;^U2E)FEV
ziAmVwkemAhsO6QvH_{s?U_U&MwHcY<!|wisBS!X9z6bMhYQEb~B7bn#uR-mYr~FaZ
zvSfUff<xFB%`w-rIMk%d!VtWRnuKkSyPjm?Ys6PE1_OU|BR30m6`jUdeBy)~iJ_?X
zZ$g%}M@pS^dwmSXb7D5?4ga7%AnKI6aW;NMd<-9==d`PM{7<f7-=gNgV`tnB7md1u
zX5(P=Icp>ehoLs~5C&<w);;GcN<`fOm!S^r8PpxF`Oj|d*PxC-A<}Yr<-B_<&P1L2
zEY!I!Lfv9pUvSrbgqn<nsLL_(qI(Ojz#!_E6C8BJN(C;tqOlwCYSg58fVy?|`o;Ay
z6LrVCR2(<B<nEt@nnMS%A^Kl-J7(8nKR~^2Kk72}`<2x(goAJnG%NR@zO}0U=6ccv
zHQQ&S4()l=hBW%!JtzTnF0-)_mbl_JqNb=LF${HeY{t51uNvusfvBq~^(yOMhx8i?
zbQRcZMz&)o)Df|TuEH?Xo{dNC!3nH|{(rbB2tm!A!8i(!qE2NPyO<{D1k~itK~3f&
ztb^@uu>Q40gKrpl8Mk8%yoTDN$8Wlpwn1&s`#2ACP+zaT|1`1_w_#nD->6$gd~xY*
zz8@%GcgLM?_7@uv@!zN&-1N8mAW8B3<M#Mg{~9^ViH3K1z4Cyv_uMB`J@#j<a0lv+
z74aYM2;7D~To-)bWp~&EH+7p)8+sLWWE(zoUqmBu331IwE-Ck+PN}E5Snt6QTung^
z=JVhbW4$k<pc2;m-p?&*C5rOc($@Pyven1R7hIqHn3XD&_b6j!D_iW)$E_q1*DGh`
zMVwpS$|J7ZS;5LV)z8W*%IEXKp&pNPc*;sV1r;k<xy=P*pSF@soK)FL82VSSQV|oY
zT8TkVH7o1!e0A%6J7zp*y;G1@!^&Ll5B9g-o$oZ}5ife)%03)a)5<9fe8GCBqEsy_
zP02sW;h-B2{I9n4ek67Yuu_Y-Y8~tS)CzjZdZ(mnUF&^~wy0<20S`KayYXOsD_`S`
zKr6pvy9U<#HC*RqD~pJ$H?-c5)*Z-f$>dk8Ord;YV=Lk0pZGLkC@6?}l_4SyXlms>
zEXga6I%H%ED>FF1w3U_il-F-<<u%Gv+F033`NkmY{g@ol&dO!t(!tjIO<9PVg!9{5
zDZ_m)a8tt)j6eq~gE6L)6%UCnd9PdVSM0Vott{jQ|ISv%;V#r6Y}th&$5P=|KEut}
zoBP7wvfl6fwOy@uqiWO5itZ=#F%f;cTX`QxVgmk!n&i<DRzkVI`P<e*qA?VaRwD6M
zl$Dn;w5JvFPDb~#vXL87qZuk}*xSljoPas_ACAC1F(fB8?PKL*%s?H{nz1f9Z{z30
zW&2sl#Z{<V^m}n0E5C7&8|SimU4K{M%6O8H^5_9Bxhf>Mq&bY*fLQ~r)TE(4gWQAb
zCb|*J#hILcZLpQ|cm$v1y0!0Gc^&s8xz*&GVx<97u-r4m3QJjz53{lu^G7hmm@>*r
z6D%`^k-)ZN-4wJR=Nfn$7g4?<mARy%knwIgZa_`OC_0vf<tJEKhP!bM*T+q?GLpDL
znp;(#sT_3V#Dd9I>fkR^TuXhYS*c1KIo*1v=si9Rb^RC2w9*z^%yK;&oz74ae~>}4
z>G@169We1jD`~j?BN~W}Ke66Fpv7~n_sgdU`NHx@!d&lxY(#zAJwn3`(Vtp5j4|`9
z@IsUN^R3k9yx-^6`{mLGb&eOJekUX?q+(owm9Y??!xD?E_a#&l2N0)VD4xU=egD^3
zY`x!rnYf*#E4joqX!lZ<9~b&Av)-@VW=M-A9^-HWcEd``U2+b@`NUgsId=cTReTqN
zh(lIb?|;D*3?@E>9jRZcd}+Pk@3GjJcww<eu?2Cdl~x8}5H`eB*a^>IEY@7bs=+i2
zz>US8Ew;pJ_6^GGp>`k{^*P(oqsyX@109;_YuwP>M7^Q;S1ulht%-9`8)VkH2DQRz
z#9yE;!@zY`CgL)jgtgbR#o|iTA-{mSOzUL1cg}<?*1yi(j}+9!avR(Y%~2nef{}O&
z^?WG5FWP`%sO4)>KTt|;bbEg{)G4`&7qB(IK`pWRW>+4C@x-g~D*AoRGSRsz`r673
zT)f4~WX#}Ird#Gy+pH83KTBd{;xjwg(I{Vujfh{|=^E4%^{w|Yj-mYFE|xQn-fiW$
z-nWOj#y?O;tnprQf$Mj8ICz$Wa{Jue)XQ;6G75$AgSd|y^7gxpC*y#XWa2Wp?z+)9
zP|ssueeieI`*Au4(}{1OCSU47-k$gk>Qq<D)9h#cP2xcJ`rFtGlMlHEA4DCAYTvt_
zFF|d2!^5t8D{79kIpUIV0%{HvpguS%-<gZLTAKafUQ!EC>#2X#d%s7faWI~OJZy(y
z$LM(peyLD<^uY<YjIQG(;+7}f7P}L*!q8Jzt}#-(a3b-lpWJJ=-Wivqd8j>Za@M&3
zLx}A;y`J?K%7Jb?c^HTRKf9rO8%GmgDmMDOtM~-!NW@-n4Y-1uR52G_&vLL6ag733
zQ3A#iuSM->`CnW|(lM3##qW|^4(X_WECtvDn_jl!!(e1$0Dk(Ll{WNr_Z9c4_TZ|k
zc;z*=WPNZUuVw6v?Qso0&-FL3CHh^rQkwENZdkd3-O$sMgH|_5LY#vdZ$$D=%Kd3&
z1M#uj^n`fw9hbFvf4d#5`oC5RI3I(Du-#oMprW$(tn46us>sSz;(UA>Bkx-&g-H)w
zLxw%HO}#A|`_PI%CnjQ9Ze04vN(EeB?CxUoi@lImCSXgM0JEa1iJi7S*lbxJY-=p@
ci}jC7Ngf`bJUlQirT?Jhge~VUTfb`m2O^~l761SM

delta 5354
zcmXZgcVLg#8o=@AoY?!S*1SS*G!@jU*dv65)(T>VSV0h@MveNJRVs9#xK@ptB?%RK
zG-yKYRn)8&QK?ZSu5rK5d-B)kea<`1dd_*@-|w&2c{5(;O&DL;*TabP4KWgdhZ-As
zC?dr|jm*S6O^t-&JS>Nouog-)BLPqwf5Gnf7;A<Z$%7Tbjm*Jdd>;>EDf}P4hsBy3
zc|m<)&5ci{P!RfoktGzQ;&tMfmPV>#SSuszaSUpM0$LkM#mzV#KW<~haNiR=PyDp4
zkqvm9-ekwI?TqBWiFg#JXT|N>8_7xBrM=G`^r9da1+iHtKEls<@HlKqdA3L+VHkno
zxCpiUH;lom9gVcX1*ko~i`B7oCnFzX1a`q?nCvI=9KRq=@^v$^iGwClMxyZ%_QH1E
zjkL#Yn2C9rryH0(+Q=omjepa?AA7nAlY1NKN%^0s4QtiMNLO5pA^0rII(?0FARdo(
zxZii0gOVKN?`I^K6Xp9mqj56j-=OA5iC7~GaO^-MrMd2n!A6E-HLQ)Ru^wK-7Fa6I
zjZ{AjAx=OYnMYU{1BV!COZ`%ZgWoBbg?+M#3?J&|?7|2mfs|jxPMBk)tEdO+oGwHz
zm*uDxuExgr0PkV-QLZEYqm6t+9EtPjKn5Nso;pTz&c{%Xbq{<v&b9CvYL-_T&(tti
zG5B9@d~>3a!<ab9ND)i&O))}|#7{G_91Bc$NxYfFp=Z)^rjZ{hUxuBr*DRN`yW?pP
zaqZbgCQ!eennSkoz&2kP;TaP7m63SLuYS!O<Dj`*h&^e(CfRk=xaxe@!vxf!zm1xt
z0X%&x&l`lTiOViB@+A(#B+C8hO;I|wjV0%MPKC#5{=Ybpw!+8^yu8ZDeaic;;R0@K
zx6VjEJcA9e?s_9lIX@OF5%1qX4>1Gv`tXfZ$oW*9fn7Gak-4>*)j&Kskz~aaNsK?E
zDOI-`p|i5(2a=2jge4n!6R%@2%KyPyG_2qbBjt(1cNuBK`Qf{bEW<6>4%_W9vXtxA
zU@UR7{jNcYxR>&(2i&rJkV39;KHwnhe*_0J4jP$_ukcfhKV;+sEW(8Mz-VlU`%#yd
z{KWEsR;cTH1~$j@SQE>ny7Qedg!pUhhUZX6s#=<nK{(6DK_~~A7>NyzxNM(?{fRSh
zFm^oZ=Kc_B`CC65i9#Rt!Yf#gk!f_y-5+z@$RW!2;R&2}!tEy=PP*&Yqjt=f|CDRl
zV5~vG5$uU_+V!j#YEo^+ruY;!3G1J6J(-P7i0@!`ta#Rq+~=sP=mJJ#p>u8|hN0fS
z1zFZU$#&lD^-<WD6LU~+c!K(X$P4bqIk=Jd6u!a<zqpD&x#${p05u14UUEBJSJWLe
z5eH(9%SJllaMXq#!G@Zy<$rY*4M5!iSD+5<MbsUx<`p;h>rqD_9cj5#x$54EGf?M#
zGwNJtqHeKuues~KL`}wY)aBUWx_b+*#)i}{XE|twMQ*s{>WUG>>rj*C1?tw>`KIgP
zY}6g^W>#G3H+TOe)Er91D(HX9?U-${oQZnhLDXej@OM_nP!3vgpjo*O^{rL>57(2H
zsM$UTb!e}kHl*rp_n;WmxlF`rXz#d<s0Qjt3`boZTQLaDT_dfqBI;@ycbE0AL%NFs
zT?HoH$WCmAIwIztt1uk3XP=<<;4B89|DSFOLQ!)k7DwYr)Ts<-7t`eQp(b|<YBFcy
zyBLze`qvi4W*DiAJJ28RqV_2FU#_L~P#ZKJ7hnqN>$TehBYSW=2C@7`Jv5RRzkS5_
z1Lfa8cISitW&<Mr8?}R5p12Q^INv{RkFWF8$YoAce#YyS2jtCkpHM;U&syP5)E%qc
z|9D5>cFf6jjb6Cy4u9#UZYyd-@1Txs<yY>DXe2HtF8kUg<&UUS>MJSMI~aoNDM-N+
zJUGr+?`71$&wB6u!`ZBKq`XHC>wS<U=d`k#>l1TXDNcFE+*Y=;#SY73C6+iSzm<1z
zUI8nwxo&qsE5E9RtgNGaAuk;2@kx_6tn{VejW?}4;({@6SxF)uRMbjy^e=9u2o5M=
zr8`b2X=O8BDP_I4V|;1rO~GV;EAzR(Q5oy)d>8Nt@shHZPKoq?+sXy3_#f*{MYaGd
z!Q`K$a1g-*pO>@VM`FuBD*?pC-?iSSR)g}^o08%|)_aZCs$k_M4?2STFtwtUZTMLw
zE4Q)Xd)E6J4y<ftDRIdv*86DPiOiNvscK~!<rAx0X-)n~j`tY~3L<MTM8xj|TN#Fa
zyz;0+M%K16gY)0kwbGdK3iYfsp**g>l>?L~HMHKx<cLOAZV_h>vEDajI%*OwY-}Yr
z_r1+cRs0x%P%8s5D$I(HM3=M{*87Ux{-Kp6+~D8R$~fGEI)t@bG31!7wUvdq6{EPX
zRU7Ml=WlFly^X3~gcaRS7Gf;sX=mjV9Ett#F=~=`ZEq!<`)hWvJ{iKn#7HZV_@JYe
z${5z!3VA1^yI9%64dc2oR9HF6%2@Q_L41xQabI_m6KnLa@-@bzj%e9vmz)oAF>&5r
zR(`^@s9W^V-aadTaB#S{%j)m@xC+<wB?&3-8sn0yKtGo>KchC_^Zr)erlC0oxCfVy
zbt85dXL7#rKr2`A7#8Nbjf1STz<q<=YRWUj%6m+~O5ac`EM+<Uk(Fh5d?Z7Raigug
zkGaM$5?Ft%n}U#Wu7MA6DdnrjGnZ5pI>9Z+1k_}Vq+<z~f1;I@xED8YeXmJYMiCd7
z;#QS!8VAidv1qE5ck#wF*U~)Gt&||{@R{|dXeb|sy8f@vw9)`;&2l{(9nVk_&zw!N
z>G?TULUF*CR;J*luV^4vn`^yaKuhOY@5?6>`NHx^%zW=al2G4vuh4Kq*Ke#G!>9#T
zc%ey!MOG?uzTjf(eYw;_o#Vx*-wA`3P%*B?qL_}Q(Jr;#OQ<Zy5XWISp2H#f{x7}E
zdf$MvaVJUVx7;;o?+TV57v@=My|3J0q{Y$)dt(AdV3AcWIs4%v;$&Qf5vyIrPq86!
z=y%rpT`(0xh|gm)>X%|`toQxi1FI7+&hjMICeF6j$^dMDRd6ka;YEzbvg=qiI2i*m
zDa%V)+V$)kln0@9U@+=)cA!s}MLGvMG}AY@p~*nKq2@*xkHvb#DX0yS?_GoH;B>-O
zsLQb8CM%P01y06*&1|u_26f1<qAt_G1ozJIC9wW=?#@sUg!vNP4K-086o--c0QGzr
zKVP%~!%@pOqJE(GZE<^lThuAJgV(SwKZELE$sb&KB=#j<hj+2yHkOIbRpvG;8Mrjr
z%2bT!Ri;~J;T=|<6PF?}=3voX>}Zs)!D__i_P7RhLVfFfg<~jxxtHaPqxV@kqxbD+
zuJIn~h*dj4E^z%$9|!;DAYY1`o1lX(Nk*Yio{A~lkaoyzJn@IE#1ZHE$z3-Z`|Ek^
zsSi%I-pA=&j3>U2ntbEZczfb5)Tu6UM6;juH;Dt?>mOnl9DLM0I2CmyO8o44z6`bH
zm5;gdWYip~cibhR4>bp_qdqwDg!3@!Y6(8+UQ&xt>#1<cyWc0Daxj5{G;D<7r|G#L
zKdDfAH1nKWMt|aD;@aok7P}j@!mtZg(iy2eIEi@eMfchby5y2H4YkMBFFO}uQ)2V0
zUeEdq<3Kl_G^~X0TyaC!9zQ0&nPu0juHv((BhllUYrt*Pq>8%kdX|D=#HDYziefOD
zcq3{@^WStGnT6x2Ukd)_mcuO6Uo6+L6V|w8B`1S18v}9vA6Dwq)4g}xr`n6VuHrT6
zY{~lId%TwMLu`!eu`Ji$$2wT>zV-e&X^~;&4(HpVuQLaA{vru+E^3^F<elVuU?q|G
z)FXOAJms;=+O#Kb2P^s1$_>s(;Zbb(j0&hIZ>E)9#D$+*`IPuLzJ(oLSjmoqUb==1
ze`SNc7L9pjr3@z~Vm@yC_O+FQxGBrMSsu^w>Xh7p$+-i~cO|ALgqY-n5bM9PP?_FC
Z;zsn18&RqEkUj(A`b8&SyJZWN{67)d2qpjk

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index 4d4fccd..cf5284f 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -2805,7 +2805,7 @@ msgstr "この応答では、'%(coding)s' コンテンツコードを使用し
 #, python-format
 msgid ""
 "This response's `Content-Encoding` header indicates it has the "
-"`%(coding)s content-coding applied\n"
+"`%(coding)s` content-coding applied\n"
 ", but the client didn't indicate support for it in the request.\n"
 "\n"
 "Normally, clients ask for the encodings they want in the `Accept-"
@@ -2813,7 +2813,7 @@ msgid ""
 "encodings that the client doesn't explicitly request can lead to "
 "interoperability problems."
 msgstr ""
-"この応答の `Content-Encoding` ヘッダーは、`%(coding)s content-coding` "
+"この応答の `Content-Encoding` ヘッダーは、`%(coding)s` content-coding "
 "が適用されていることを示していますが、クライアントは要求でそれをサポートしていないようです。\n"
 "\n"
 "通常、クライアントは `Accept-Encoding` "
diff --git a/httplint/translations/messages.pot b/httplint/translations/messages.pot
index a6df167..d9c9fde 100644
--- a/httplint/translations/messages.pot
+++ b/httplint/translations/messages.pot
@@ -2332,7 +2332,7 @@ msgstr ""
 #, python-format
 msgid ""
 "This response's `Content-Encoding` header indicates it has the "
-"`%(coding)s content-coding applied\n"
+"`%(coding)s` content-coding applied\n"
 ", but the client didn't indicate support for it in the request.\n"
 "\n"
 "Normally, clients ask for the encodings they want in the `Accept-"
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 77560804928a0db5c517cf990556ac4ef4e23877..0f436d224652b1dcdcba21eca16e835980b1972f 100644
GIT binary patch
delta 5333
zcmXZgd0@}=AHea~`<-hDjX9SYn<blT8X`w5bB>xZj726_iN(+PZB2+@lq0oLbFXA`
zMp{M6%=RO4E7asC9a`jE>G}G+zkfa6ulM)!dEdupyPFqKnisHnW}q*{h>YrD<VoEB
zxRDYOsngBK0<08kq#M48;dmC?qItqd7(R-pa5!GWw%v_X#K<@!i?I#1#(WIMQf!8G
zdKf9CzPKL7CmCeK_A;`Pi~_tsJi3pOmKfL9$cH!`wL#(WMh@U+oQc!=88N(f15Xg&
z>ThHt9;P>CamG_d%3(Sd;(ULckYJ=d@sI?cON=C=0vY4{KcwM&3Z98E<d;n}(il7V
z9f^&I7vLk9gOPX<8{z{4-3YZt?MM=8&lh4%E3z9W6Cd#<85v9>cCe9$F$*KG&>vsJ
zH;L;HG4clPz}K+*P#Q!7kE0H8X|k)J<uDhgpjNybn_xa_`6U>Q!NZMwjlO;)bgpW$
z5NhLk48$)`=kzF+;QptLJV1rJMi{9|d~l?Z4tNGbvDPz2>SH_9iUy(PXP{QN4s`@h
zqfSYMQAQr3eyK`gH5qO3J%;8i>I2iCHBuSV@ljlaIx+>Qzn7pk^cL#SR~q9gZi{n?
zN1}G<3J%Bn#u~A7U?k2VP910DCiTlNB(%Wd@kZ+E3x3N^U<heY1Jp(K<nug-2@{P>
z$008mIl}WNCK>q?vnLxlgYTpniNYx_vKDx5EuJLKpJF5q-=AvaJYL4Z)Gr7AV<dzJ
z8%=XV-j&ivk>6&9oBNg6j=1$qBah>AsPPumq5cKyVa-{t;#OEhc`2wP7R4gh5g34*
z$=`urVrse(UpR>-8Aeza5<kaC7UsOdoM}AINHQ;G%s0{re?UD4LSHqq54)pQP-%gi
zqG;5HJ%>TOpN*CA^M!8h6#m!9&;0)VYeuS&pTCIxUz@~<#YURr)z@8xAxqrc&qCer
z3y>WnPc3!v#$|4sr7b6)-&de6va3kjrO}&i+kUXZNH6j);05v{-*Vgd{!Dj}wa#QH
zhVj4zGWuW<_QtyJxSov00mQ3Nhx#V!3E1#m*YhFRl{f=iVLs|Azk^M&$x0(FZ~*qh
zx!4y^qSn{g_nvzp4fVk_s69D`U9iIYt|2|KG4UMKiZ-G?e-5=lRhc(kgmI|5rTr=+
zD{u<Ff>l<#{AH-y_Au&uzRGJ{A{Il*n2p+_EYzM{MBQH1*SdyvMxEm{)RQp>^#uG0
zwcvW|T+aug9zb(Ycf-fn5HF&xq4Mkf`#*|A2pNf}Et-NIF&FiS{oQZi1|tc?G59Jj
zL_PU}vb}<&Cu&0{qYix*>Xa3scIc+x_8%B&Pwc~Hy8k~Vp{w``>a7;|q1&fzQ0M3+
z)E*qdC$JQCin?xeQ!*8`NAID&{}r~upZ$h@<l-dM5qkr*!w0Y-^~+@vT0o^uuHcra
z6^_DgxD<8hPN5cj7j+Fp=eRjdMJ;d@>QwASoywbj>*Tt)J?dSMjJlTQp)Zz14vFS?
z9rXkZ<CM?`JNX@hTJciUHBso#zk>~k!?rkMQSX3M)CRwTIu+TdQ+W(^N^T)%zckv)
z{@0=Jz17Hrn1-pi1hs(Ms09RXb3Khi?O_H6;U`!d52KFMWz><0+U_b!L2d9t)aQ1i
zmiH~z#CzL)ZZ+53;eP0c`om1rBXue2$mF6HbRN^N%Ev}@<T7v$7GOU1-DxBfYwmLU
zeG85twx1Z8h@<dDJb|;Yw{N$Rr6dmG6dd-cJM)jD9!%r&jEu%Y)Kwh)nUO@CiW~6|
z>VY-=bGK&lQMcz`s6*ZS3nS0tU|fO+F$t6R`1k)#f8r0+7B$&xq=pgMfO_xeed)~E
zXXG$()>p2<6TfyxZ<+l@){s9G-{w8ZH}WfF9x#%P^9qbC!WIXOOu#Sj97Yuysm1z}
z%0))5k`eYlBky31L#zb~+Kiit4;?nL7Jc6s*{jbTF>((tp$_$>qpl(8-@3cwG)^VI
z%`x|ln2XO6M;>=yP|GoeIO2qnO}hW*lhB^UoOCTMcgjdE@p60)V^6!IbUThE?tR96
zvhBp-#DQns+)l!I#KnHceP?70@io*nll(o4n2sGqor3$%8`(+yGMa?0fshME{=sed
z4Q~CxNOxYy_z{T<i;e8S>KECL<QL#;#O9K_<rZT)@mbU%PyWA=p7<+%f^9AvVfv*6
z%UZr4t}y;lWbFLa-S0pB=7uo*cX#V$;A~zzjoQ#bSNS^uPvIqO`iGJ67+B&C7$549
zyb3$x2^@sA{&c%xA}%A|i>ER18vFk;i5A!0_Nnt1Unayq;0zkJ_J&)%4Q{#B{5tAx
z_!JjoqucJN-iCVll;S{acgM(bd;_yE;;xZNcmNk-`%<@^^GkhhNN<p#i|?bq-2oK$
zkDJq6oJ@X$dq!TyW!M92iIpOJ8ehd`#(L+$F6>ME53a&K)_R}qS8+RW`hC{>)Qc%&
zh2<oPJ|-fLM2qrPD&n*XR_fuL04oQ1A*-TgmGXy4CF|Yibt+qL|8K#+$**v~_4a$Y
zD%R^^XB<cVHoqZNt+)CYVmZpajzjtVZZ#|QiG70}uyUM?se#s;>ps=3_Z3@&+JFr;
ztOW4jq#)~k1<&Nq7hRmQYgyTY@wKh|g4OC+Z}FDme&V}zT?4<YXXQKMJ;BzyHCH}p
zy^q)<$Q|R88uhJrQgy_RJU9mR;K;@@RNOzrN*E?KK=NmVTJIXo!fC`OF%<hZ^a_;8
zSdDlk*1{YN#{Kv(7GnffX=GWfEbAB&&Bz#sbEzm3_4*ABw-S%>s1?7D1Mn+shjklU
z?-olyy}oDRL|lWq>T5)}_a>lLxCFJ_-KY(^j3K(M%0A?J5RO5_-BB-}WYiChY1jfc
z`F}r$THtlm0)v~l_j;n<aw-0J8U_+CM(x0A)NjLl)bj1aR(vDqaeWdx^yy8l_X)KJ
z^?~0|hc+OR#ez*y^Lt_preX(NiF(kS!A=++<>FDO?{7wZ|0rsQN>INI!<$*3cOMUI
z<{r#I{ZLqkI@AT2f+5Xa#V?`u@LhZecc2daIZVMaEv&aaN8wiDTx^OX_&cr@E<*i~
z*^60tyQR;{3nVgIS?^$|9BsW1khd_8{CoHo=C!uo!7|_xD>sNYp*Cb~j2qg|@OR=L
zu`M2HW4)8HVq5Fo2~)8%`S&mhJGZk^fSEoLACh?HQCCpa_O6Ak@m=!A<7y1(;2QQ3
zK0#dlF*o;vQHOLs>Qv<U^KWA>;)ssA%K0irT{GFJYv~)*=Y6J=o3oCn56t$v9%G3Q
zq0V)U&aS{-epjH*Z87S5WxKeBMEQLhbuBDMt>`!=VBq5}e>Ad|e6oQ=H-6ZMx=1Q?
zwZd1FMBpRD=exP>5)|ti&<b_?&Gx$s^;-QCwW6r**8Acai#jrAP<Kg{IM<;L7)ksx
zM(h61C7}ftqi(+kd$@|C(HkOvoQJx7D)e+GSXb2F=c2y94|SyeMqQk(d%4A#jM{(<
z)CO%q-EBXqy8pv^y8~z>Y5_~|F)YBk^sIazh8P?6bw_f~c<X&i1@&_c%0S)UpQBz*
z#TbfF{jD6sc)W;VPjUxfz*Fwhs)jxticAuEROX{@lk><og9IkHp}aG|$}-}yiPrm1
z#=U{o`zk&;$lY$`ldSh~`8IyW`;mjK_bqt^{~&&Lh!wrolZIOF-*~~vt|1$eZH(8V
v95UANzz)0*hYWKM4ELMrcLJ8@_q2?Fh@AluW_?|gGB3A_*_qqL76tzcL1c3!

delta 5336
zcmXZgd0@}=AHea~`|X&`)i5pB*cjQIYjcHY%o?L?jy0xba{k03a(p#c^h1t_gq;0o
zvm_ECer6`3+`mXD>5!w`@q4~L@9$ra_v`)reBSr**&gf&yuTwbe|!aBh7rkXXXFLk
z*WSo=5ebbqG82P37>UPsu@0WW<|rMF)P@##3j5+sY?fdo2%|a~nS*io6c%7LypIhr
zG||Wd>Ptv8KAB8Le3Fq5$SB0~!~?n*X@UvKM%Lq4)CSe=YNQZ1;&>d>&4}T>zwrd|
z?dOebz{B*W1isPTNJ*T82XVST?w(>KfH*D1=MtG@lp<rW|A%aRi-N~t9Qnn27>UGI
zelszGcm~E|E=J=;49CZMx)F*&?MN@wp3lU}R%9Dy6Cd&QHj+jnKFvsdT#j|I$RFRp
zg~ZigG%^=A<1Fl$PJ?LRG1MWx-^W$ZxUY*dP%B=5PhtUT`PVQ8t1|EV(ASlO&Q(Z1
zBcZqkE8v%?b9xl7<Gz=S1XJPGOe5uq54>#TX*`X!uyTJRHLy8qMLkjTb5JW>jXDCS
zP^Tmy%Sb)ymvSUllF<y8F*IjT9~e8(NEw`jEpZm=$P}Xfehsyuw^4^aXppP88BQb4
zMD5TO%s@NXh@}IWIE6TCh>_dWFTaw|0xt|TQbk|zTYMNpNQ1&q7uoZ}c@De3YUB+}
z8)4)q&mSLY<OZ(GHgX1+yk?{UjvB>U;JH<JlDJ^Bkxsbmbt6CEWlW=f*+0fe7!QVz
zbwl2s(zD2q8|UVJDYhVv8E>RL4nvLeQHT0htcoEMT*XcBYs$+&9kFN@xsHG?_I&a;
z;~va<(}=GQiF%Wbur4HdijftVJC!-pc)F23yqNQrk+ygq^&F@<!^mFjh+09=OgBYM
zQ5!Z4LwJ83mcgBGyR}pFZzEUu{rg!)%8_3%oBbb3;`kgRjqvI_uEHAg+}w{x-S0Dy
z9V0Kyck%iKZkuJlOFq9ZL|tT8k+w_tLbq){T4W@N{2%Z<`BCq=ZCqxFJIG>|Fcf`x
zU?>?~@E~@^C*F5G8Gxz8D^Q2}7U~IDYpLsb8a_*$gH5pjb(P=6D6IE^k;a&U-Eb-<
z;|bLI>iCwq7qU?wT#4F~@30*PEO!k_#7N@Fs1>b8ef}(JgUT^)x(E|ccT39;jV!`Z
zI2FsTbouj9x9wrn_k5*SxkNnHB4Yw-kCvnM<Ra?!s<7HMtS#ysXQQ5sxu_@LCDeke
ztZ_Z>iFyD{M%@jcVK`nyT|*_;`uBe{i7+x!QCl<$+h88*5&MVV;B`h)h+}aE&O|-=
zDt+V?B#EdE9f>;h%TcH7AZmwh`EB_hBdv%hVnf~kUy#sMd<FGZ3tsQ`X&mYt`A~as
z2s`3^)G2De!A;3%)E<3+`u<*QhQIi&`LT<8p^n%)s2$#q;nXjeNoWB<xvt>Gs1^3d
zc$|kibSF^@zK6O7n&!DV%|b131?p7nMxDxAenU69xFzackdC^RrlGF`iChwm@FwaB
z7{Mu_54Q0;5VhiYsB5CgpMMu?5=VUEj7Pl#vQQg51$8Rcp-$y@s8ezqIr}Ai6Z>C>
zK53JY>X?lKa4u>AcTfwc`l;(_0%{L)Fa$rxP&|w}QkPLjCVI20C<C>@Gf|)0hFadY
zSQ#JcQK+jq<TLj}SJWTIp&qI8P)8;YwV-qO8kXH+L`N<Mr(hxO$1YoqEWwb^-G0x<
zOk%Um$g9{NN8xdtfJweDjLau-07qk=?e5G!hI%j!*<s`rEJ9tyO?MjUfunH)9zs2^
z#(wG6OaW?#{z4t<hP#Xm$KE&(4`6Rh-|gT3Tl|SXQCn2+D<hSR$Xe8UfBPP1?p`C`
z5HJ6)Yw+-W?&vL6U}P2fFXCd}dxXCeFD^9l5l%Z`WHvS`GBOOm#B&&Z(8%MgKPmmS
zkw3|ZIAr8~tazBUKtUTZpZL%>Mpom*BSyZ`=Z+eAgg>DU^-tfrhD`d--5sa!b@Jnm
zxo^Zg97r5>+<ieUz<$J$CyeCk{+~`ldlq}rwY0=3BO8eq;J+~bv^z>a#lgf$XWS>-
z7R(?H{-2xM5jdUrg5Sa48yQ4=19i=$pJfr#v7@L{Q050CTd7|LkkB<y<GhiFxCxKo
zCqEiV;DwwENL+N$$Y)sL65EmdLYze`Kf7CQHoi%C26f2OFB^Fdf5UAU_lpsxU#?*Z
z%lE^tjDG_%w*2ny_e+1cA*_AX-Fi7Vkrz*)HniuT{GEU&@n@`m&B#y;zU~f~iKs{N
z3Va5SV=t_H!|jIQxPW*!p2pOh?Eha#H2TYJpU}VgG9f;X<7n8bTW<A+-EpgV4(e|B
z0_R}(U3XM(LcM(MV^3^;&&a#@4z9q+`$k6Meta8SK5*N);DOH#>EC4N;@j|#JAe`%
zx;f3mZ1Te%8Og!<n243d%GcNrXJ7+kz4KrzCKLaIA7W=~z0dZmxS4oTG3$Nm#TK{1
za*|XZ6VZu8qW~*GIHr`9syI2&N)azC53;OM{xB(Rz56`0jP>?^KK?^~Kw0bU_Y&o-
z*Tc3rg#1l@Ym~R%>Ys@vDfcF(^ZUKWtkfX(^$fOhoQ%;GtT)%4D_ZX>_8@8l)>g6-
z$b%z7toIc>jz3>?aZY&L%5F>!welO5f5Li;_dXU7->c#p_*GRa-xKeuX1!Z;X?5#;
z#2!KJ7@t(EVZD>8HMZfwfv5+^IxJ4b-NLNY#?+cf{u{Ndca1K`vBW2^7Iq8w3Y3xf
z81Yhk9CNW6?!)?c0qbJf2+Lw+S;vxSNXB5CMn#KJuiu(=taQa>)QXp3D(=M=_(Y`j
zZn5sD*Y|jQ6<4CJ`igbkdqYtxoQqoSHq-`P#xUJh#p}5q)W#6vj;NPUI_ihU7;KCm
z`+q-+THsC80;@jh-b+Ni<ud&77_2}%8?^%;qJA3|pq6jyTk&Pm<LV@I=qE*4?-Obl
z>I1){4sEGu77Nx#%}>NQ%)+N}De6IU8rx#+1}^T8`u;}L_m84>=o;#`VeN+2=iSFW
z8oCE_FoGXeqYiZ;_QM*DT*W@r9=?zDa5L)ApT&Mytg-dBXMfy8oQF~P5`V`v#aXBy
zGP`jF-f7~qGJ?e7rq(+cO2=6517s2IApar0hufdB-ocU*YvmU4$EXci73YR_2VN!q
z5u4+YX4X3y1Djj#P8f~PkpB>SW7`&14&Y)RiS;C2Zs`gt*UGgp2A7gQ1Xp6Ir(MG~
zU`OH#t=-)BMjg`Ws8g}spMM9Fh$GwRD(9;hb<M0pT}$7fKJSyZZq8bxJ}|-W8tg!P
z2z9P2KH~~}&hJ9hxxIk;Uh#IWA<=&Op{|7ms1+T<6bx?f@&_Pm$tP<`#Ph=*)I}2T
ztQEeZBobqZ&&9j#QmKP$KoivMH^J{#)NA!RYDLir*8AcaggP>(QFlq%POd|(Fq-&H
zjM4p{M?wp{fV%yvCAx~5q82#OA8$w9J^|0U6RbVz?^99V--9|*4^S6pOp;ri>8K6J
zL2Xbz>TbKF>i&=D><*wz)B@&WYb?Yn^sHnTh8SxlyCXTVtMxvmDs^)W%0b=VJ5evE
z3s?)IpSN-hlkpNpyuclRrMkOIt33L2C>E2@qp|>Xo18<w86-Hx4dvZbD+`DR^|0Q5
zG9LD{-dFL7UhZ})+1q*_m+#?D-j7PN-nZlxyhi-Wi&pen@0D)7f8$l{;~KKIkB#$M
zluO1M9@vb<Fs-k9ps(L7ze6#A-?JwN*4-Ld*Q~9ws8bhPe)_I<X6vqYc4xK!12xZb
Ae*gdg

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index 3ad4b7b..67d353d 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -2713,7 +2713,7 @@ msgstr "这回复使用 '%(coding)s' 内容编码，但并未请求。"
 #, python-format
 msgid ""
 "This response's `Content-Encoding` header indicates it has the "
-"`%(coding)s content-coding applied\n"
+"`%(coding)s` content-coding applied\n"
 ", but the client didn't indicate support for it in the request.\n"
 "\n"
 "Normally, clients ask for the encodings they want in the `Accept-"
-- 
2.43.0


From 4ec9a4b96069d01b3c81972ca1fa2af81f62365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 23/67] fix: match compressed IPv6 addresses, empty paths and
 whole userinfo in URIs

---
 httplint/syntax/rfc3986.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 5509735..e258514 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -77,13 +77,13 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *6( h16 ":" ) h16 ] "::"
 IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
                                                  :: (?: {h16} : ){{5}} {ls32} |
-                                           {h16} :: (?: {h16} : ){{4}} {ls32} |
-                        (?: {h16} : )      {h16} :: (?: {h16} : ){{3}} {ls32} |
-                        (?: {h16} : ){{2}} {h16} :: (?: {h16} : ){{2}} {ls32} |
-                        (?: {h16} : ){{3}} {h16} ::     {h16} :        {ls32} |
-                        (?: {h16} : ){{4}} {h16} ::                    {ls32} |
-                        (?: {h16} : ){{5}} {h16} ::                    {h16}  |
-                        (?: {h16} : ){{6}} {h16} ::
+                    (?:                    {h16} )? :: (?: {h16} : ){{4}} {ls32} |
+                    (?: (?: {h16} : ){{,1}} {h16} )? :: (?: {h16} : ){{3}} {ls32} |
+                    (?: (?: {h16} : ){{,2}} {h16} )? :: (?: {h16} : ){{2}} {ls32} |
+                    (?: (?: {h16} : ){{,3}} {h16} )? ::     {h16} :        {ls32} |
+                    (?: (?: {h16} : ){{,4}} {h16} )? ::                    {ls32} |
+                    (?: (?: {h16} : ){{,5}} {h16} )? ::                    {h16}  |
+                    (?: (?: {h16} : ){{,6}} {h16} )? ::
                     )
 """
 
@@ -97,7 +97,7 @@ IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
 reg_name = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} )*"
 
 #   userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
-userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )"
+userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )*"
 
 #   host          = IP-literal / IPv4address / reg-name
 host = rf"(?: {IP_literal} | {IPv4address} | {reg_name} )"
@@ -134,7 +134,7 @@ path_noscheme = rf"{segment_nz_nc} (?: / {segment} )*"
 path_rootless = rf"{segment_nz} (?: / {segment} )*"
 
 #   path-empty    = 0<pchar>
-path_empty = rf"{pchar}{0}"
+path_empty = rf"{pchar}{{0}}"
 
 #   path          = path-abempty    ; begins with "/" or is empty
 #                 / path-absolute   ; begins with "/" but not "//"
-- 
2.43.0


From 650918176a82450036c0718d859ccf62e74018d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 24/67] fix: match variants, extensions and private use in
 language tags

---
 httplint/syntax/rfc5646.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5646.py b/httplint/syntax/rfc5646.py
index a2a579f..3c3ef40 100644
--- a/httplint/syntax/rfc5646.py
+++ b/httplint/syntax/rfc5646.py
@@ -13,7 +13,7 @@ from .rfc5234 import ALPHA, DIGIT
 
 # alphanum      = (ALPHA / DIGIT)     ; letters and numbers
 
-alphanum = r"(?: {ALPHA} | {DIGIT} )"
+alphanum = rf"(?: {ALPHA} | {DIGIT} )"
 
 # irregular     = "en-GB-oed"         ; irregular tags do not match
 #               / "i-ami"             ; the 'langtag' production and
-- 
2.43.0


From 77d45db5cb3164205c799f1094eaf314efbbd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 25/67] fix: allow white space around a link parameter's =

---
 httplint/syntax/rfc8288.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc8288.py b/httplint/syntax/rfc8288.py
index 3f654f8..63db9b8 100644
--- a/httplint/syntax/rfc8288.py
+++ b/httplint/syntax/rfc8288.py
@@ -12,13 +12,13 @@ They should be processed with re.VERBOSE.
 
 
 from .rfc3986 import URI_reference
-from .rfc9110 import OWS, list_rule, quoted_string, token
+from .rfc9110 import BWS, OWS, list_rule, quoted_string, token
 
 SPEC_URL = "http://httpwg.org/specs/rfc8288"
 
 #  link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
 
-link_param = rf"(?: {token} (?: = (?: {token} | {quoted_string} ) )? )"
+link_param = rf"(?: {token} {BWS} (?: = {BWS} (?: {token} | {quoted_string} ) )? )"
 
 #  link-value = "<" URI-Reference ">" *( OWS ";" OWS link-param )
 
-- 
2.43.0


From c3d3b500c50c8267834265d1acec29d0a8fa1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 26/67] fix: follow the RFCs in partial URIs, ranges, field
 content and chunk grammar

---
 httplint/syntax/rfc9110.py |  6 +++---
 httplint/syntax/rfc9112.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index f4bc2b9..47b84e1 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -263,7 +263,7 @@ Content_Length = rf"{DIGIT}+"
 
 #   partial-URI = relative-part [ "?" query ]
 
-partial_URI = rf"(?: {relative_part} (?: {query} )? )"
+partial_URI = rf"(?: {relative_part} (?: \? {query} )? )"
 
 #   Content-Location = absolute-URI / partial-URI
 
@@ -501,7 +501,7 @@ Proxy_Authorization = credentials
 
 #   int-range = first-pos "-" [ last-pos ]
 
-int_range = rf"(?: {first_pos} \- {last_pos}? )"
+int_range = rf"(?: {first_pos} \- (?: {last_pos} )? )"
 
 #   suffix-length = 1*DIGIT
 
@@ -649,7 +649,7 @@ field_vchar = rf"(?: {VCHAR} | {obs_text} )"
 
 #   field-content = field-vchar [ 1*( SP / HTAB / field-vchar ) field-vchar ]
 
-field_content = rf"(?: {field_vchar} (?: (?: {SP} | {HTAB} )+ {field_vchar} )? )"
+field_content = rf"(?: {field_vchar} (?: (?: {SP} | {HTAB} | {field_vchar} )+ {field_vchar} )? )"
 
 #   field-value = *field-content
 
diff --git a/httplint/syntax/rfc9112.py b/httplint/syntax/rfc9112.py
index bf5940c..b8229ca 100644
--- a/httplint/syntax/rfc9112.py
+++ b/httplint/syntax/rfc9112.py
@@ -49,9 +49,9 @@ chunk_ext_name = token
 
 chunk_ext_val = rf"(?: {token} | {quoted_string} )"
 
-#   chunk-ext = *( ";" chunk-ext-name [ "=" chunk-ext-val ] )
+#   chunk-ext = *( BWS ";" BWS chunk-ext-name [ BWS "=" BWS chunk-ext-val ] )
 
-chunk_ext = rf"(?: \; {chunk_ext_name} (?: \= {chunk_ext_val} )? )"
+chunk_ext = rf"(?: {BWS} \; {BWS} {chunk_ext_name} (?: {BWS} \= {BWS} {chunk_ext_val} )? )*"
 
 #   chunk-data = 1*OCTET
 
@@ -71,7 +71,7 @@ trailer_part = rf"(?: {header_field} {CRLF} )*"
 
 #   chunked-body = *chunk last-chunk trailer-part CRLF
 
-chunked_body = rf"(?: (?: chunk )* {last_chunk} {trailer_part} {CRLF} )"
+chunked_body = rf"(?: (?: {chunk} )* {last_chunk} {trailer_part} {CRLF} )"
 
 
 ## Transfer-Encoding
@@ -100,7 +100,7 @@ HTTP_name = r"HTTP"
 
 #   HTTP-version = HTTP-name "/" DIGIT "." DIGIT
 
-HTTP_version = rf"{HTTP_name} / {DIGIT} . {DIGIT}"
+HTTP_version = rf"{HTTP_name} / {DIGIT} \. {DIGIT}"
 
 #   method = token
 
@@ -124,7 +124,7 @@ authority_form = authority
 
 #   origin-form = absolute-path [ "?" query ]
 
-origin_form = rf"(?: {absolute_path} (?: {query} )? )"
+origin_form = rf"(?: {absolute_path} (?: \? {query} )? )"
 
 #   request-target = origin-form / absolute-form / authority-form / asterisk-form
 
-- 
2.43.0


From b10272720bf16f76e432d56619a8352b1da78f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 27/67] fix: accept the parameters of challenges after the
 first

---
 httplint/field/parsers/proxy_authenticate.py | 3 ++-
 httplint/field/parsers/www_authenticate.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/proxy_authenticate.py b/httplint/field/parsers/proxy_authenticate.py
index 96587be..9b81a03 100644
--- a/httplint/field/parsers/proxy_authenticate.py
+++ b/httplint/field/parsers/proxy_authenticate.py
@@ -9,5 +9,6 @@ class proxy_authenticate(HttpListField[ResponseLinterProtocol]):
 The `Proxy-Authenticate` response header consists of a challenge that indicates the authentication
 scheme and parameters applicable to the proxy for this request-target."""
     reference = f"{rfc9110.SPEC_URL}#field.proxy-authenticate"
-    syntax = rfc9110.Proxy_Authenticate
+    # The parameters after a challenge's first are list members of their own.
+    syntax = rfc9110.list_rule(rf"(?: {rfc9110.challenge} | {rfc9110.auth_param} )")
     deprecated = False
diff --git a/httplint/field/parsers/www_authenticate.py b/httplint/field/parsers/www_authenticate.py
index b1ace16..e3599b6 100644
--- a/httplint/field/parsers/www_authenticate.py
+++ b/httplint/field/parsers/www_authenticate.py
@@ -10,7 +10,8 @@ class www_authenticate(HttpListField[ResponseLinterProtocol]):
 The `WWW-Authenticate` response header consists of at least one challenge that
 indicates the authentication scheme(s) and parameters applicable."""
     reference = f"{rfc9110.SPEC_URL}#field.www-authenticate"
-    syntax = rfc9110.WWW_Authenticate
+    # The parameters after a challenge's first are list members of their own.
+    syntax = rfc9110.list_rule(rf"(?: {rfc9110.challenge} | {rfc9110.auth_param} )")
     deprecated = False
 
 
-- 
2.43.0


From e29014cde1d0dc6930bc8e9940a9f9676f180dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 28/67] fix: allow white space around a parameter's =

---
 httplint/field/parsers/server_timing.py | 5 ++++-
 httplint/field/utils.py                 | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/server_timing.py b/httplint/field/parsers/server_timing.py
index a36a24c..3fd8e3f 100644
--- a/httplint/field/parsers/server_timing.py
+++ b/httplint/field/parsers/server_timing.py
@@ -21,7 +21,10 @@ request-response cycle. It is used to surface any backend server timing metrics
 read/write, CPU time, file system access, etc.) in the developer tools in the browser or any other
 consumer of Server-Timing."""
     reference = "https://w3c.github.io/server-timing/#the-server-timing-header-field"
-    syntax = rfc9110.list_rule(rf"{rfc9110.token} {rfc9110.parameters}")
+    syntax = rfc9110.list_rule(
+        rf"{rfc9110.token} (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {rfc9110.transfer_parameter} )? )*"
+        rf" (?: {rfc9110.OWS} ; {rfc9110.OWS} )?"
+    )
     deprecated = False
     structured_field = False
 
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 4f2eb39..b4c1f23 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -184,9 +184,9 @@ def parse_params(
     Parse parameters into a dictionary.
     """
     param_dict: ParamDictType = {}
-    for param in split_string(instr, rfc9110.parameter, rf"\s*{delim}\s*"):
+    for param in split_string(instr, rfc9110.transfer_parameter, rf"\s*{delim}\s*"):
         try:
-            key, val = param.split("=", 1)
+            key, val = [part.strip() for part in param.split("=", 1)]
         except ValueError:
             param_dict[param.lower()] = None
             continue
-- 
2.43.0


From afc87b0c71c93e8c8bcba3c080bea3cdfed018e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 29/67] fix: accept nested comments

---
 httplint/syntax/rfc9110.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 47b84e1..9985711 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -563,6 +563,8 @@ ctext = rf"(?: {HTAB} | {SP} | [\x21-\x27] | [\x2A-\x5b] | [\x5D-\x7E] | {obs_te
 #   comment = "(" *( ctext / quoted-pair / comment ) ")"
 
 comment = rf"(?: \( (?: {ctext} | {quoted_pair} )* \) )"
+for _ in range(3):  # regular expressions can't recurse, so comments only nest this deeply
+    comment = rf"(?: \( (?: {ctext} | {quoted_pair} | {comment} )* \) )"
 
 #   Server = product *( RWS ( product / comment ) )
 
-- 
2.43.0


From 01edac5ec9998f41a742fb08e15f0f53bcdfb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:38 +0000
Subject: [PATCH 30/67] fix: match the v of an IPvFuture in any case

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index e258514..9695aeb 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -88,7 +88,7 @@ IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
 """
 
 #   IPvFuture     = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
-IPvFuture = rf"v {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
+IPvFuture = rf"[vV] {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
 
 #   IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"
 IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
-- 
2.43.0


From 4351c2c8abc6e754a793f2821618692bb04e2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:40 +0000
Subject: [PATCH 31/67] fix: allow only HTTP's white space between
 Content-Disposition parameters

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 14ada6c..1f4d552 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -21,7 +21,7 @@ The `Content-Disposition` header suggests a name to use when saving the file.
 When the disposition (the first value) is set to `attachment`, it also prompts browsers to download
 the file, rather than display it."""
     reference = "https://www.rfc-editor.org/rfc/rfc6266.html"
-    syntax = rf"(?:{rfc9110.token}(?:\s*;\s*{rfc9110.parameter})*)"
+    syntax = rf"(?: {rfc9110.token} (?: {rfc9110.OWS} ; {rfc9110.OWS} {rfc9110.parameter} )* )"
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-- 
2.43.0


From a3691a2ba63666b3ff19517fad3454d93e9c8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 32/67] fix: match a link's parameters in one way only

---
 httplint/syntax/rfc8288.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc8288.py b/httplint/syntax/rfc8288.py
index 63db9b8..2f20984 100644
--- a/httplint/syntax/rfc8288.py
+++ b/httplint/syntax/rfc8288.py
@@ -18,7 +18,8 @@ SPEC_URL = "http://httpwg.org/specs/rfc8288"
 
 #  link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
 
-link_param = rf"(?: {token} {BWS} (?: = {BWS} (?: {token} | {quoted_string} ) )? )"
+# (white space after a token alone is left to what follows it, so that there's only one way to match)
+link_param = rf"(?: {token} (?: {BWS} = {BWS} (?: {token} | {quoted_string} ) )? )"
 
 #  link-value = "<" URI-Reference ">" *( OWS ";" OWS link-param )
 
-- 
2.43.0


From 73b17e4f8893ce8e1dfcaab0ceee8b81927dfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:09 +0000
Subject: [PATCH 33/67] fix: match a range-spec in one way only

---
 httplint/syntax/rfc9110.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 9985711..bf5ae70 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -519,7 +519,10 @@ other_range = r"(?: [\x21-\x2B] | [\x2D-\x7E] )+"
 
 #   range-spec = int-range / suffix-range / other-range
 
-range_spec = rf"(?: {int_range} | {suffix_range} | {other_range} )"
+# Every int-range and suffix-range is also an other-range; this is arranged so that each
+# range-spec can only be matched in one way.
+
+range_spec = other_range
 
 #   range-set = range-spec *( OWS "," OWS range-spec )
 
-- 
2.43.0


From 21c2131c006779f06695e2d39e0de6e29cc69843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 34/67] fix: number every field line

---
 httplint/field/section.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index ce27bea..d7c6ffb 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -39,9 +39,7 @@ class FieldSection:
             - calculate the total section size
             - call msg.add_note as appropriate
         """
-        offset = 0  # what number field we're on
-
-        for name, value in raw_fields:
+        for offset, (name, value) in enumerate(raw_fields):  # offset: what number field we're on
             add_note = partial(self.message.notes.add, f"offset-{offset}")
 
             # track size
@@ -76,7 +74,6 @@ class FieldSection:
                     field_name=handler.canonical_name,
                     field_size=f_num(field_size),
                 )
-            offset += 1
 
         if self.size > self.max_total_size:
             self.message.notes.add(
-- 
2.43.0


From 56b1d9638906d6e7f7d00286dc1b930115d63dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:00 +0000
Subject: [PATCH 35/67] fix: Accept and Accept-Encoding can occur in responses

---
 httplint/field/parsers/accept.py          | 12 ++++++------
 httplint/field/parsers/accept_encoding.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/httplint/field/parsers/accept.py b/httplint/field/parsers/accept.py
index fd2c048..0401403 100644
--- a/httplint/field/parsers/accept.py
+++ b/httplint/field/parsers/accept.py
@@ -11,7 +11,7 @@ from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
     ParamDictType,
-    RequestLinterProtocol,
+    AnyMessageLinterProtocol,
 )
 
 
@@ -22,7 +22,7 @@ class AcceptValue:
     q: Optional[float]  # pylint: disable=invalid-name  # RFC 9110 q-value
 
 
-class accept(HttpListField[RequestLinterProtocol]):
+class accept(HttpListField[AnyMessageLinterProtocol]):
     canonical_name = "Accept"
     description = """\
 The `Accept` header field can be used by user agents to specify response media types that are
@@ -81,7 +81,7 @@ class ACCEPT_BAD_SYNTAX(Note):
 see [its definition](%(ref_uri)s) for more information."""
 
 
-class AcceptTest(FieldTest[RequestLinterProtocol]):
+class AcceptTest(FieldTest[AnyMessageLinterProtocol]):
     name = "Accept"
     inputs = [b"audio/*; q=0.2, audio/basic"]
     expected_out = [
@@ -90,20 +90,20 @@ class AcceptTest(FieldTest[RequestLinterProtocol]):
     ]
 
 
-class AcceptComplexTest(FieldTest[RequestLinterProtocol]):
+class AcceptComplexTest(FieldTest[AnyMessageLinterProtocol]):
     name = "Accept"
     inputs = [b"text/html; level=1; q=0.5"]
     expected_out = [AcceptValue("text/html", {"level": "1"}, 0.5)]
 
 
-class AcceptBadQTest(FieldTest[RequestLinterProtocol]):
+class AcceptBadQTest(FieldTest[AnyMessageLinterProtocol]):
     name = "Accept"
     inputs = [b"text/html; q=1.001"]
     expected_out = [AcceptValue("text/html", {}, None)]
     expected_notes: NoteClassListType = [BAD_Q_VALUE]
 
 
-class AcceptBadTypeTest(FieldTest[RequestLinterProtocol]):
+class AcceptBadTypeTest(FieldTest[AnyMessageLinterProtocol]):
     name = "Accept"
     inputs = [b"invalid"]
     expected_out = [AcceptValue("invalid", {}, None)]
diff --git a/httplint/field/parsers/accept_encoding.py b/httplint/field/parsers/accept_encoding.py
index e4dbb2a..4bd2fc3 100644
--- a/httplint/field/parsers/accept_encoding.py
+++ b/httplint/field/parsers/accept_encoding.py
@@ -8,11 +8,11 @@ from httplint.syntax import rfc9110
 from httplint.types import (
     AddNoteMethodType,
     ParamDictType,
-    RequestLinterProtocol,
+    AnyMessageLinterProtocol,
 )
 
 
-class accept_encoding(HttpListField[RequestLinterProtocol]):
+class accept_encoding(HttpListField[AnyMessageLinterProtocol]):
     canonical_name = "Accept-Encoding"
     description = """\
 The `Accept-Encoding` header field can be used by user agents to indicate what response content-codings are
@@ -35,7 +35,7 @@ acceptable in the response."""
         pass
 
 
-class AcceptEncodingTest(FieldTest[RequestLinterProtocol]):
+class AcceptEncodingTest(FieldTest[AnyMessageLinterProtocol]):
     name = "Accept-Encoding"
     inputs = [b"gzip, identity; q=0.5, *;q=0"]
     expected_out = [
-- 
2.43.0


From 76b6a0ca52be6c192c32899577245849c8161e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 36/67] fix: Content-Location can occur in requests

---
 httplint/field/parsers/content_location.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/content_location.py b/httplint/field/parsers/content_location.py
index 832632a..62cdb8b 100644
--- a/httplint/field/parsers/content_location.py
+++ b/httplint/field/parsers/content_location.py
@@ -2,11 +2,11 @@ from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
 from httplint.syntax import rfc9110
 from httplint.types import (
-    ResponseLinterProtocol,
+    AnyMessageLinterProtocol,
 )
 
 
-class content_location(SingletonField[ResponseLinterProtocol]):
+class content_location(SingletonField[AnyMessageLinterProtocol]):
     canonical_name = "Content-Location"
     description = """\
 The `Content-Location` response header can used to supply an address for the
@@ -17,7 +17,7 @@ URI."""
     deprecated = False
 
 
-class ContentLocationTest(FieldTest[ResponseLinterProtocol]):
+class ContentLocationTest(FieldTest[AnyMessageLinterProtocol]):
     name = "Content-Location"
     inputs = [b"/foo"]
     expected_out = "/foo"
-- 
2.43.0


From 2fb9666c04f3a74be45dabb671abbd9dd27a7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 37/67] fix: TE only occurs in requests

---
 httplint/field/parsers/te.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index 830a2a0..a725fb9 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -4,10 +4,10 @@ from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import parse_params
 from httplint.syntax import rfc9110
-from httplint.types import AddNoteMethodType, AnyMessageLinterProtocol, ParamDictType
+from httplint.types import AddNoteMethodType, ParamDictType, RequestLinterProtocol
 
 
-class te(HttpListField[AnyMessageLinterProtocol]):
+class te(HttpListField[RequestLinterProtocol]):
     canonical_name = "TE"
     description = """\
 The `TE` request header indicates what HTTP/1.1 transfer-codings the client is willing to accept in
@@ -31,7 +31,7 @@ The most common transfer-coding, `chunked`, doesn't need to be listed in `TE`.
         return encoding, param_dict
 
 
-class TETest(FieldTest[AnyMessageLinterProtocol]):
+class TETest(FieldTest[RequestLinterProtocol]):
     name = "TE"
     inputs = [b"trailers, deflate; q=0.5"]
     expected_out = [("trailers", {}), ("deflate", {"q": "0.5"})]
-- 
2.43.0


From 6ac51017ed4edd71804af2009ca1fb2e7b84f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 38/67] fix: compare expectations without regard to case

---
 httplint/status.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index cf013b7..84115de 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -57,7 +57,9 @@ class StatusChecker:
         status_method()
 
     def status100(self) -> None:  # Continue
-        if self.request and not "100-continue" in get_header(self.request.headers.text, "expect"):
+        if self.request and not "100-continue" in [
+            v.lower() for v in get_header(self.request.headers.text, "expect")
+        ]:
             self.add_note("status", UNEXPECTED_CONTINUE)
 
     def status101(self) -> None:  # Switching Protocols
@@ -241,7 +243,7 @@ class StatusChecker:
             if not expect_headers:
                 self.add_note("", STATUS_417_WITHOUT_EXPECT)
                 return
-            if "100-continue" in expect_headers:
+            if "100-continue" in [v.lower() for v in expect_headers]:
                 self.add_note("", STATUS_417_WITH_100_CONTINUE)
                 return
         self.add_note("", STATUS_EXPECTATION_FAILED)
-- 
2.43.0


From 1f20ada4accccb54f5af5a74df9c24e40301d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 39/67] fix: a missing Content-Range isn't about Location

---
 httplint/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index 84115de..073e85b 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -100,7 +100,7 @@ class StatusChecker:
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
         if "content-range" not in self.response.headers.parsed:
-            self.add_note("field-location", PARTIAL_WITHOUT_RANGE)
+            self.add_note("field-content-range", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
         pass
-- 
2.43.0


From 3ffb5bfa5e534b76c36773753239a821db30e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 40/67] fix: multipart/byteranges responses have no
 Content-Range

---
 httplint/status.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index 073e85b..ab7ca3f 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -99,7 +99,12 @@ class StatusChecker:
     def status206(self) -> None:  # Partial Content
         if self.request and not get_header(self.request.headers.text, "range"):
             self.add_note("", PARTIAL_NOT_REQUESTED)
-        if "content-range" not in self.response.headers.parsed:
+        # the parts of a multipart response carry their own Content-Range
+        media_type = self.response.headers.parsed.get("content-type", (None,))[0]
+        if (
+            "content-range" not in self.response.headers.parsed
+            and media_type != "multipart/byteranges"
+        ):
             self.add_note("field-content-range", PARTIAL_WITHOUT_RANGE)
 
     def status207(self) -> None:  # Multi-Status
-- 
2.43.0


From d20723b4af52125001efbb930571d4450f238c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 41/67] fix: don't look for an unknown method in Allow

---
 httplint/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/status.py b/httplint/status.py
index ab7ca3f..e30ee4d 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -177,7 +177,7 @@ class StatusChecker:
 
     def status405(self) -> None:  # Method Not Allowed
         method = self.request.method if self.request else "request"
-        if method and "allow" in self.response.headers.parsed:
+        if self.request and method and "allow" in self.response.headers.parsed:
             if method in self.response.headers.parsed["allow"]:
                 self.add_note("field-allow", STATUS_405_METHOD_IN_ALLOW, method=method)
                 return
-- 
2.43.0


From 80379d0714cbe126308e6cf9b561539c640fdb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:09 +0000
Subject: [PATCH 42/67] fix: know all the heuristically cacheable status codes

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 2a5f6c2..d69241d 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -7,7 +7,7 @@ from httplint.util import relative_time
 
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
-HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
+HEURISTIC_CACHEABLE_STATUS = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]
 
 # Larger delta-seconds values are considered to be this one; see RFC 9111, Section 1.2.2.
 MAX_DELTA_SECONDS = 2147483648
-- 
2.43.0


From 815365e419e857828e646634c8c96977c3a56c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 43/67] fix: the storability found is also that of the
 attributes

---
 httplint/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/cache.py b/httplint/cache.py
index d69241d..9d6b42c 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -117,8 +117,10 @@ class ResponseCacheChecker:
             ):
                 self.notes.add("field-cache-control", STORE_STORABLE)
             elif "s-maxage" in self.cc_dict:
+                self.store_private = False
                 self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
             else:
+                self.store_shared = self.store_private = False
                 self.notes.add("field-cache-control", STORE_UNSTORABLE)
                 return False
 
-- 
2.43.0


From 5c330da4545227f3e27da37e758a20d5051a16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:35 +0000
Subject: [PATCH 44/67] fix: dates that don't exist are not valid

---
 httplint/field/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index b4c1f23..23f4323 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -1,5 +1,6 @@
 import calendar
 import re
+from datetime import datetime
 from email.utils import parsedate as lib_parsedate
 from typing import Any, Dict, List, Optional, Tuple, Type, Union
 from urllib.parse import unquote as urlunquote
@@ -123,6 +124,14 @@ def parse_http_date(
             date_tuple = (date_tuple[0] + 1900,) + date_tuple[1:]
         else:
             date_tuple = (date_tuple[0] + 2000,) + date_tuple[1:]
+    try:
+        # does this day and time exist? There can be a leap second.
+        datetime(*date_tuple[:5], min(date_tuple[5], 59))
+        if date_tuple[5] > 60:
+            raise ValueError
+    except ValueError:
+        add_note(BAD_DATE_SYNTAX, category=category)
+        raise
     return calendar.timegm(date_tuple)
 
 
-- 
2.43.0


From c6343a1e361341c8cab3ac2695ac8c5ba6f0c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 45/67] fix: see Transfer-Encoding after Content-Length, too

---
 httplint/field/parsers/content_length.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 2f95d29..9d21131 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -34,7 +34,7 @@ store the response (since they can't be sure if they have the whole response).""
             add_note(CL_TOO_LARGE)
         return value
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if "transfer-encoding" in self.message.headers.parsed:
             add_note(CL_AND_TE_PRESENT)
 
-- 
2.43.0


From 3de9a9296ca3d82fce3e25de5f254710e3972239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 46/67] fix: see Age after Date, too

---
 httplint/field/parsers/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index c190eaa..751280d 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -27,7 +27,7 @@ It is used by caches as input to expiration calculations, and to detect clock dr
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if self.message.message_type == "response" and self.message.start_time and self.value:
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
-- 
2.43.0


From ce0a118358f4fc5a9441559c40d796746ed2a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 47/67] fix: see Date after Last-Modified, too

---
 httplint/field/parsers/last_modified.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/last_modified.py b/httplint/field/parsers/last_modified.py
index 9ccce42..6192a2b 100644
--- a/httplint/field/parsers/last_modified.py
+++ b/httplint/field/parsers/last_modified.py
@@ -24,7 +24,7 @@ representation was last modified."""
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         date_value = self.message.headers.parsed.get("date", None)
         lm_value = self.value
         if lm_value:
-- 
2.43.0


From 4ff5b7d60d1321e82cd181ad19ee2ac893cb0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:56 +0000
Subject: [PATCH 48/67] fix: 199 is an informational status code, too

---
 httplint/charset.py      | 2 +-
 httplint/content_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 2f3916d..9a73fc6 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -41,7 +41,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 646e2b4..eb5822d 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -22,7 +22,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
 
     # Don't verify content type for responses that don't carry a full representation
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
-- 
2.43.0


From 262b2eea35d90f9a2074a3b87036de6afe074ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:03 +0000
Subject: [PATCH 49/67] fix: content type notes are about the Content-Type
 field

---
 httplint/charset.py      | 6 +++---
 httplint/content_type.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 9a73fc6..bba33ad 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -94,7 +94,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
 
     if not decodes:
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CHARSET_UNDECODABLE,
             declared_charset=effective_charset_raw,
             detected_charset=detected_raw or "unknown",
@@ -109,7 +109,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     ):
         if is_implicit:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_IMPLICIT_MISMATCH,
                 media_type=declared_type,
                 declared_charset=effective_charset_raw,
@@ -117,7 +117,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
         else:
             linter.notes.add(
-                "content-type",
+                "field-content-type",
                 CHARSET_MISMATCH,
                 declared_charset=effective_charset_raw,
                 detected_charset=detected_raw,
diff --git a/httplint/content_type.py b/httplint/content_type.py
index eb5822d..740fd0e 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -48,7 +48,7 @@ def verify_content_type(linter: LinterProtocol) -> None:
         ]:
             return
         linter.notes.add(
-            "content-type",
+            "field-content-type",
             CONTENT_TYPE_MISMATCH,
             declared_type=declared_type,
             sniffed_type=str(sniffed_type),
-- 
2.43.0


From 1fc871e2b0e136c8c0eb47c0afcf91bfe69eea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:10 +0000
Subject: [PATCH 50/67] fix: CORS notes are about fields

---
 httplint/field/cors.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/cors.py b/httplint/field/cors.py
index 637dad2..7397a74 100644
--- a/httplint/field/cors.py
+++ b/httplint/field/cors.py
@@ -71,7 +71,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
 
         if bad_headers:
             message.notes.add(
-                "header-access-control-allow-headers",
+                "field-access-control-allow-headers",
                 CORS_PREFLIGHT_ONLY,
                 headers=", ".join(bad_headers),
             )
@@ -81,7 +81,7 @@ def check_preflight_response(message: ResponseLinterProtocol) -> None:
         acao_value = message.headers.parsed["access-control-allow-origin"]
         if isinstance(acao_value, str):
             if " " in acao_value or "," in acao_value:
-                message.notes.add("header-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
+                message.notes.add("field-access-control-allow-origin", ACAO_MULTIPLE_VALUES)
 
 
 def check_access_control_allow_origin(  # pylint: disable=invalid-name
@@ -108,25 +108,25 @@ def check_access_control_allow_origin(  # pylint: disable=invalid-name
         request_origin_str = str(request_origin)
 
     if acao_value == "null":
-        message.notes.add("header-access-control-allow-origin", CORS_ORIGIN_NULL)
+        message.notes.add("field-access-control-allow-origin", CORS_ORIGIN_NULL)
         return
 
     if acao_value == "*":
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_STAR,
         )
         return
 
     if acao_value == request_origin_str:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MATCH,
             origin=request_origin_str,
         )
     else:
         message.notes.add(
-            "header-access-control-allow-origin",
+            "field-access-control-allow-origin",
             CORS_ORIGIN_MISMATCH,
             origin=request_origin_str,
             acao_value=acao_value,
-- 
2.43.0


From 554e3e5faf7145e54fc5e910685acf90bc2c2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:28 +0000
Subject: [PATCH 51/67] fix: 1xx and 204 responses can't have content, either

---
 httplint/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/message.py b/httplint/message.py
index 365c347..4a41e48 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -300,7 +300,9 @@ class HttpResponseLinter(HttpMessageLinter):
     def can_have_content(self) -> bool:
         if self.is_head_response:
             return False
-        if self.status_code in [304]:
+        if self.status_code is not None and 100 <= self.status_code <= 199:
+            return False
+        if self.status_code in [204, 304]:
             return False
         return True
 
-- 
2.43.0


From 36d99f394dabc713370158eded2580d0ba4718c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:48 +0000
Subject: [PATCH 52/67] fix: integers in fields are ASCII digits

---
 httplint/field/parsers/access_control_max_age.py | 4 ++++
 httplint/field/parsers/age.py                    | 4 ++++
 httplint/field/parsers/content_length.py         | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/httplint/field/parsers/access_control_max_age.py b/httplint/field/parsers/access_control_max_age.py
index bf87e72..f2e52f8 100644
--- a/httplint/field/parsers/access_control_max_age.py
+++ b/httplint/field/parsers/access_control_max_age.py
@@ -1,3 +1,5 @@
+import re
+
 from httplint.field.cors import CORS_PREFLIGHT_ONLY
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
@@ -24,6 +26,8 @@ request (as scoped by the `Access-Control-Allow-Methods` and
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
+            if not re.fullmatch(r"-?[0-9]+", field_value):
+                raise ValueError
             val = int(field_value)
         except ValueError:
             add_note(CORS_MAX_AGE_INVALID, ref_uri=self.reference)
diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index dfbe618..6d9ffb8 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -1,3 +1,5 @@
+import re
+
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
@@ -22,6 +24,8 @@ The `Age` response header conveys the sender's estimate of the amount of time si
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
+            if not re.fullmatch(r"-?[0-9]+", field_value):
+                raise ValueError
             age_value = int(field_value)
         except ValueError:
             add_note(AGE_NOT_INT)
diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 9d21131..03d396e 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -1,3 +1,5 @@
+import re
+
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
@@ -26,6 +28,8 @@ store the response (since they can't be sure if they have the whole response).""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
+            if not re.fullmatch(r"[0-9]+", field_value):
+                raise ValueError
             value = int(field_value)
         except ValueError:
             add_note(CL_BAD_SYNTAX)
-- 
2.43.0


From e1aedb6f64a92899a8c9daabef553b881cb6043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 53/67] fix: read max-age of Strict-Transport-Security as RFC
 6797 does

---
 httplint/field/parsers/strict_transport_security.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 30ce922..33c3ca4 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
@@ -54,8 +55,8 @@ browsers that it should only be communicated with using HTTPS, instead of using
 
             if name == "max-age":
                 try:
-                    if value is not None:
-                        parsed["max-age"] = int(value)
+                    if value is not None and re.fullmatch(r'[0-9]+|"[0-9]+"', value):
+                        parsed["max-age"] = int(value.strip('"'))
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
-- 
2.43.0


From fb829e1781da0e5a68f0697eca6e72b2ad8d4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 54/67] fix: superscript digits are no digits

---
 httplint/field/parsers/content_range.py | 6 +++---
 httplint/field/parsers/range.py         | 4 ++--
 httplint/field/parsers/set_cookie.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index e8f7044..ec9a12c 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -92,7 +92,7 @@ in `416` (Requested Range Not Satisfiable) responses."""
         if len_str == "*":
             add_note(CONTENT_RANGE_UNKNOWN_LENGTH)
             return None
-        if not len_str.isdigit():
+        if not (len_str.isascii() and len_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=len_str)
             return None
         return int(len_str)
@@ -108,10 +108,10 @@ in `416` (Requested Range Not Satisfiable) responses."""
             return None, None
 
         first_str, last_str = rng.split("-", 1)
-        if not first_str.isdigit():
+        if not (first_str.isascii() and first_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=first_str)
             return None, None
-        if not last_str.isdigit():
+        if not (last_str.isascii() and last_str.isdigit()):
             add_note(RANGE_INVALID_INTEGER, value=last_str)
             return None, None
 
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ab3f8cb..f4ec181 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -52,7 +52,7 @@ parts of the representation that are specified."""
             last_byte_pos: Optional[int] = None
 
             if first_str:
-                if not first_str.isdigit():
+                if not (first_str.isascii() and first_str.isdigit()):
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
@@ -62,7 +62,7 @@ parts of the representation that are specified."""
                 first_byte_pos = int(first_str)
 
             if last_str:
-                if not last_str.isdigit():
+                if not (last_str.isascii() and last_str.isdigit()):
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 8d01177..042b8e2 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -199,7 +199,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdigit():
+        if not (attribute_value.isascii() and attribute_value.isdigit()):
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
         delta_seconds = int(attribute_value)
-- 
2.43.0


From 1de147d6b8749d1aeaf61776e31bfdcaf684beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 55/67] fix: white space before a parameter is not part of the
 value

---
 httplint/field/parsers/accept_encoding.py     | 2 +-
 httplint/field/parsers/accept_language.py     | 2 +-
 httplint/field/parsers/content_disposition.py | 2 +-
 httplint/field/parsers/te.py                  | 2 +-
 httplint/field/parsers/transfer_encoding.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/httplint/field/parsers/accept_encoding.py b/httplint/field/parsers/accept_encoding.py
index 4bd2fc3..f8fe395 100644
--- a/httplint/field/parsers/accept_encoding.py
+++ b/httplint/field/parsers/accept_encoding.py
@@ -27,7 +27,7 @@ acceptable in the response."""
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index c86f6dd..7aa019e 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -36,7 +36,7 @@ preferred in the response."""
         except ValueError:
             language, param_str = field_value, ""
 
-        language = language.lower()
+        language = language.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
 
         q_val: Optional[float] = None
diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 1f4d552..1760a57 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -29,7 +29,7 @@ the file, rather than display it."""
             disposition, param_str = field_value.split(";", 1)
         except ValueError:
             disposition, param_str = field_value, ""
-        disposition = disposition.lower()
+        disposition = disposition.strip().lower()
         param_dict = parse_params(param_str, add_note)
         if disposition not in ["inline", "attachment"]:
             add_note(DISPOSITION_UNKNOWN, disposition=disposition)
diff --git a/httplint/field/parsers/te.py b/httplint/field/parsers/te.py
index a725fb9..6a6d962 100644
--- a/httplint/field/parsers/te.py
+++ b/httplint/field/parsers/te.py
@@ -26,7 +26,7 @@ The most common transfer-coding, `chunked`, doesn't need to be listed in `TE`.
             encoding, param_str = field_value.split(";", 1)
         except ValueError:
             encoding, param_str = field_value, ""
-        encoding = encoding.lower()
+        encoding = encoding.strip().lower()
         param_dict = parse_params(param_str, add_note, ["q"], delim=";")
         return encoding, param_dict
 
diff --git a/httplint/field/parsers/transfer_encoding.py b/httplint/field/parsers/transfer_encoding.py
index d9eb3ee..ea96549 100644
--- a/httplint/field/parsers/transfer_encoding.py
+++ b/httplint/field/parsers/transfer_encoding.py
@@ -39,7 +39,7 @@ Transfer codings can only be used in HTTP/1; HTTP/2 and HTTP/3 do not support th
             coding, param_str = field_value.split(";", 1)
         except ValueError:
             coding, param_str = field_value, ""
-        coding = coding.lower()
+        coding = coding.strip().lower()
         param_dict = parse_params(param_str, add_note, True)
         if param_dict:
             add_note(TRANSFER_CODING_PARAM)
-- 
2.43.0


From 41a8c2bb271f7d54fc2eb9d37f49b1e3ac630367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:31 +0000
Subject: [PATCH 56/67] fix: compare Accept-CH and Vary without regard to
 letter case

---
 httplint/field/parsers/accept_ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/accept_ch.py b/httplint/field/parsers/accept_ch.py
index a6a1e15..5114cd0 100644
--- a/httplint/field/parsers/accept_ch.py
+++ b/httplint/field/parsers/accept_ch.py
@@ -54,7 +54,7 @@ willing to process."""
             for item in self.value:
                 # item is (value, params)
                 field_name = item[0]
-                if field_name not in vary_header:
+                if str(field_name).lower() not in vary_header:
                     missing_vary.append(str(field_name))
 
             if missing_vary:
-- 
2.43.0


From 4a7f283c2dd45a85a2727e3950b328eb19006a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:14 +0000
Subject: [PATCH 57/67] fix: fill in the value in notes about bad q values

---
 httplint/field/parsers/accept_language.py     |   2 +-
 .../translations/es/LC_MESSAGES/messages.mo   | Bin 173723 -> 173731 bytes
 .../translations/es/LC_MESSAGES/messages.po   |  12 ++++++------
 .../translations/fr/LC_MESSAGES/messages.mo   | Bin 177203 -> 177211 bytes
 .../translations/fr/LC_MESSAGES/messages.po   |  12 ++++++------
 .../translations/ja/LC_MESSAGES/messages.mo   | Bin 196591 -> 196599 bytes
 .../translations/ja/LC_MESSAGES/messages.po   |  12 ++++++------
 httplint/translations/messages.pot            |   8 ++++----
 .../translations/zh/LC_MESSAGES/messages.mo   | Bin 155260 -> 155268 bytes
 .../translations/zh/LC_MESSAGES/messages.po   |  12 ++++++------
 10 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index 7aa019e..c8e5553 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -67,7 +67,7 @@ preferred in the response."""
 class BAD_Q_VALUE(Note):
     category = categories.CONNEG
     level = levels.WARN
-    _summary = "The q value on '{language}' is invalid."
+    _summary = "The q value on '%(language)s' is invalid."
     _text = """\
 The `q` parameter must be a decimal number between 0 and 1, with at most 3 digits of precision."""
 
diff --git a/httplint/translations/es/LC_MESSAGES/messages.mo b/httplint/translations/es/LC_MESSAGES/messages.mo
index 21b94a7e77be0023803413353d9b87e053b95e02..6de123b777393ed9316c854bf0a0b68f153fb253 100644
GIT binary patch
delta 6552
zcmZA5dtlG?{=o6q`)xWU#Idn3bK7h#V<XG3Hh1Q3!nByh%w=v9x$G-q&RlXI8cpmZ
zTG1TJaVZXk6eA%;r<_XdlyZs0dA>gH??1oaUysl0{rP;}pZDkWdEdU@S58*ge6qrh
zfXco|5&5*5ktTQthhkWukxuv`K7mIu2Jc}SHV<;wEl0h-3|nK3>PDimH#WjKsOPt0
zV=To`{1fY9NDbqYo*cy2FwzYdp`JL4`oNpm1|x!v1mg&-hcmGjZonXX52Nr?Y>D@=
zF2+1=WTO!ofQiJv)^rVRRm(MOY%QOW7Mxg3K{y`uTZa9J18W<vfum6466}NJLyYvm
zfmj<0QSaZ6N%$?c!WMOmG{uov2UnnGW+&>4U+{5|%t3glt6(P9Cw>jJf+MI6yo<xJ
zNnImtaWSsJkFXgItLHx166{P|itk}?eIvOV<0edLVB`h7hp}YF_k2SmhbVX}%*bq<
z6mH}(PW+78;s=df%IicJ37|Xy_02m+8kvU6a3wz6*hqUUz}|QfuVG{pBcEYlQ&-P5
z)EBJS%*a1@zBK3H9SW}Ea9kT@BmwWBW+1M)k&ZY46R`y2@g@$&RxMnLm!OvK^~ZNm
z8yX&MWDrh5?aaqe>wSQ!JYQPH80kg93LJ=6Fa=w;G!lW!Q9IRMd<y@I2^iJNNEe)d
zU2!++=(&%YiIgW?CtHhsi4XbXYORetAd~H}9nY8cPrBYd13M5GqrS;6ew(+U({Mu;
zY6I598JU3RP={%kwyq(IP%~1BIvSd^b1#;HTJKh@fj|1o%e6P+({I&}1GNzKjef?b
zv30zQm-s!4?I^GHl*`Ou3?qIKHKnhkHs}&+@2;2N8jyv0ejjQkucLm_utdiHaNaC4
z(MW$h-oeOqPK0zal829Vb``Eieb8lm63cfn(h%eEJf`Ds*siOQ3fQ8Xk(aS8>Vr?9
z4pZswG82OLcwW!$J|pwAJjuug3Qpn`;<3HlOxClvk!{2|s11tjW8@>;g|l#WUn7S5
z?&3M(d;N@T$1}W5dGrl1@(|9)6S&wP4^B4n7vf<)|3L;mOu+<yJRM)A;yI`@VU?%d
zJkZf^Ha4cb2sM?bP<waaAeX5gsC{4}>U{7jYM;7_-&>J}gN-aA_Ej2cWHJZqP%o(X
zjGJJRFqSwMi|`=6g(Fj)fzKLQOal*N1IqjI9YZl2bq!dBItq@WPEY}9Mw(*`YP}=y
zzK;L(9DGc{x)JW1j!Jjqc@ff)<z1vd%8loYjK`Q!t``?(xZeIQYTu|j+C3;1bvTa1
zCRmJ`!3(Gvs+j54k`5T9<9{dzdpVJZ$>o^Y#u#~ocs);h9JipR_yFo0Z?oLDi^TfG
z(Wq~fjJk*|#$EUsYA4N`U?dyg#v!~w!-+;-A<mh^FsA=W&B?C9yeURPII#lj;tt%!
zw>pg}T({tP-Uz>*MkmBdFBqwW=Vq`h<F_;Ebl7FKo1l8;7%8NlB^XS36c6i9+;t9b
zPP`s{$rK!WktvvhI&(=So}Oo93gx$7GIA8h&UdR?%mUY$a!@Clf1!TskX*M`^g$i}
zS(rq_OHj{0_?sI&(RoHLQvW_o<9z;N#y?q?J4=mljifIl6Pzep&Nn2!xzf#a?N_@A
zsTg%R4Oqjc;e0ge6rGgs*7a;mBHoVioWG4NvGqC{f@9XZ`wCv6FA(o8ASLuW`H8`=
zDeUvAkr`C5v(QLYY`V$F1&qhboDY7@$hXA5Z+4yP%PmG05LYR3`+|JD!FAuEX7<wS
zM#f<DR;F%VtN`0+`8JoS>b~tpawr&z&)`K&#n?Apg{x5)rK_mxe%oR<B~Qav#0OB<
zgx^qS#+GlnhK=+4D(WySMg3$|-Zs)5GjRy|N;uHHTcsWD!cKnYVn52?M_s-Cy3@_w
z>8NW!KI((dqK=M0I#3XAJ{a|ZStV}XcoR1g_uu6nd>y+GxBZ9LNqsVx1Fh&V>Wo%y
zw_A*&P*XJ<b$IQ;IQ$v)`o?>lW3U79Hos-44Q%nQyKg+|#8!m5lls<g(0f|$W4Lgj
zC+4H>19qcMAOU;bjMWqM{4AV=#aM!&|8yxogF3-f+~+nNPoaLAJk-_hAZoq8p$@;q
z{jR~QFoEaG=N#xT2|nN+)C08vGjR|eM$JI2gKqc@zyZYTP^aE9)CN|4-(|1^YKF$6
zrn(q4LpM<SQtSurx+Un-Ir&`<wDWwAnyPw-TndL{AL0$D=gUwRlkmgNai}xiJE$4>
z19kjI{mboqrug09_e0cruA?@n@e#(q_WJQhT!qI`e=t-z>c)8->J1sF8;U~IOqHRg
zHuOXH-~p(M%mUQ=ccH%6SEzG-Wu{BbP$$$rH5Iilz5S8TrQ#X|dPC4LBQvoxY70L=
zZ9u?r*TD9E=V3j{kD*RTKcY@N!6%&0q29LxHKRYE))(=y%j{UJO}y2|fqv^FsBci|
zq+2xFqOJwQQ5%+n+TyoR*X<ur`^MBy+#G)rD>3}CJ~eWj@>!>hq+{39M%LnXT#B7a
zjV#17xEX!VoH0_$ft+=#;2G3->1S>`o_5Z82z5``;BzC-;tbTa;Q}UL;dwXizea6n
z=mnR76kJ2R5_QxxzUX#BUm<<VC)>Voo$M|y<ANTSsDL;50&8RSuiO;f^0JZY#A~j&
zh8BNqB$Mk$|J!Z7O7USU^2RqTMqKyKRU@Bp{`7y0e2#_R8QFr<zjv!>$PaA&=zr4v
z8jA=wocz(-k;tu|7+%CT%h<bN_n(a%<Ho+f82J-xUT1t$9{j73{lvX~GqMUFz2T<v
zLVSZb^rpM-7;Yq9dCN#K#@u#m#ufZt$A8A}Y&fW}?;ZD3D&?+`OO*c?^;@0z!^poe
z`JTHm_D>_Hi4WikTz22cYuMm{k;8Zt-^V<$-cPe6W4#T|Wt_xw)>|tXoUa&Q#dm{)
zY!2ST%<@)}xuC&ARx0Ck)?y|%$tAC&Ip48@l|S%JWX_VUk6N#DjjH4-e1O{7GAdhd
z;~|e(Nh98bC$L-<D`WUXpW;4@t7d)j1{K{7vfjk8sfLxsT=*Y+9;XCbZ>w|-wf8P~
z+<MDxP)#eXxvv1nQ+}qFl>|(zZM~^>F4DQ=6sBO^5EswHv&1J*xWBND&w8of6l$d!
z1>5Ud`IQR}*0aLGC-2m^-tU9-hSr-vzQa+R4-T{PHu_Lg**x5Ot6o0pdjA>bV?rbA
zeUkI2!?qy8dVM1zk{2K@^>J{DgGU;Z61<4BFu#eF`54&L%HMH4ZotH5?u{<ved4$%
z>vg_1&0YB?sG}mXg_V=I5<kSWXe+;Kd5o1oyjcB~RtAy;-;7q)+j^a9Z6%QtDNkB&
zms-%qW#(3#OO>><vXu%<d+Y5Dw_!Zj*NL~@B9qGYCYSSDFb|t1SXqsGP&;w2MC*;3
zbEp}7w4>FZY(AOHfsX4@o!kRwcedV4mfOXOcFxsZ`KFxD>t>}Pp6_m@D*oBSdK-?%
zdRl2p9M;QvzZd%VcAa-=A9vq|zE*m3{>OgSTYlpP&~WNqg0Z^(f6PGy1p&#{o8g+_
zA>x-Xl^eT~r&U<=wDp$NxWU%@V_^nv;<_UkgBe4#LOvB%!BW&I{TtLpsA`Jqq+L<t
zg*a5l{{aqqW6hy-J|2{bQN+)rT5m_R2z8O!jheb|P*=kq&sw(?LtSjn;xw!@%t{u{
zM{U>*)V*V);nv%#rK9e&UPoUO4oW%Dmfpv3Y?|gS7=S&9b5PgyV^|+6k8ll&My>c+
z494}Si&hEN!qXUpWvI(_xpddySPUi3PG|h@;f+^OkW4|(k*>l`s15lNHB|wl+$V}d
z%}hEzhbwRd-o}2Il3~47?@iSDs*JYYeqbc(3%-n9aX;#(Dxc|dDQchT-fSZ324f`-
z!y~8<3S-*R@tTKW_yKClzeC+v)E#SOI`+dvJdV29R2=6Xyc4?+U-lb5-pvc+eH`e-
z5S?YcAC3EQ0rBJsj88Ii2X!3xndIh!kjbQw^3C`-<yWRyZx47^rMynI^|tFBrt)n$
zzY@1$wddWpKY)XX?KCTY;d);R2aH1*F`eOsPru+&JrgewZ^46@GsDVQjGt+x18zgj
zKpARh44>ut$`sV|2XG*o+3u4K!j8lXQ1=JNae$8h@;OX66bwPVu>^IKc?-v3J3f)N
z_zl!gV&=GSoQB$|j$k{ygW8bRFS>C)5B0utsP#w9bu;8bOeFpWTWXHN=DBe{1a(;K
zz&4f*2x^0Z7PvPUjNOQH(OX<l8(KHlEvut2iTM0N>;0r__&3*p&DfXnKTsE=o_Vg}
zuVa7xMqhBy38NNS?=ROWm`1z;^~M{h6?b0jT#l*4U!u+%ZI`&-pND$=CDhC`Tk3{s
z8fu1?qGsX*>V07^(?@!7kj;U9n?rsdTIQC~9=MQBvKD7yy%mga+_=)M^ZQo0OblG@
zhHDXar=E|o6;@wk<rXI46WrG!-^!!J)7M(>U$U3hGX4`OXtB;s7?V*u)ly_qln-$!
zas2`|9#pUsD`N3RH!tjc)s328a30qc6<YZMBR9EGRQ@$G%Jqx!D&^ZZyV10Ki}n6(
z8&(v{FyO@KBJ2ITJrOGqPyM?qpM#GOFZ8<tA0jR&d8E;~pDKn$j7!VPn3|R`GIC1(
w57kVa%3%@XM?ROCHZ1#viInA53p9JG1=@Mt|L>)RsW$ZgUApH)sy)^1fB(BeGXMYp

delta 6550
zcmY+|d3;UR7Qpef_fs{OiXmdI#2hL_V@!;RnWix{h%`dXr7^oon@FmtA>xUth6*j7
zsijqwR+SQ}sFpso)l&M@SZaE|b@u&y-sk=GJ!_wH_St8hJ>9$JXpv<{i)<}W!dFv7
zj+Hi28~?)oSS`RvJDi41Fb^ByJxsv5W!!adquzG~!?AQ(BhO<e)Ox3)o?nY~FdwVn
zeXNRs<&00daL}xrk!VauJ#ifMfj2M$Ym_%q9tU7GoPa^N6wBaF48^Z84FATe7#e6~
zg%RnFQN;hL;2PR6$TciE$Y-P>C*GkT1oQk}!Jfn=D;lqXgHhux*d0wJBb~4(R>U0C
z`*&k!ynv0dUS%WoFaay$T-3~bfcoO6d>q7bP`!$)U;<VrUV&P{e$)ou#X(rJs*&b6
z8?*2WtdISxxlfjX?TPboHwIKUlCCkX#<=H<Ou~EEl+5^EtzjgOf{npOrs2pCBhPT+
zDr$=#)O0DYP|HXG%3Gkmc~os96L1bL!~%7Uw8U)ehNtm&46bYB6qc;#>iHG*1q;<T
zvXkdaT@JQUa1jULqEI7|cn38D;SG$m#o-u*Td)=0z&_Zpp-XWFYWXgId<V6m)t@)g
z8%Lsc<^!npKEQaMFAW<R=}N&|d<oBCKWr3cq!zx7+NpM7Yy2G}u})(n9dI~y#BHdf
z=Wo<Z#5Hl9Y!UV#{?s2o6K>=QnT)^|JYOPSaJ@Yh+YslXzR5MebtC9B+>nCWfCbHr
zjK&kF!?aCv*N}A7jO3$^hMFzhi^ZYVyB5pgZ~pQp=+kf2wWa%JIjC=R72~i`D;H<@
zJ&r9XFW1^-CKiK<r=g~F4QhkVp!V)ck*)zLsOLXI&Ey}bpR`&O<9`rumK0^A7k=5s
z$PG>ewlk86Mccayvrr#&7GFTq!AK2khG%df-oh6;8YzPHqK(YMrl=1-h&oIkqGl#A
z#>hjS7aij>GK+%tosBG~;1FIQPVVYvvgmF`HWE)pZBTG`BVXZGoQjir7%|*;7f%!4
z>uF>Y9^-AE!YMBrDTuG**EriB$Hp3Ynz+Bue~^fUC>ZXK$KyOIo{BmX7K?N9Kx@Ba
zuny&`QB!#YwRe~7?K0H?^-V{h&Iij-`_x6eY(=W}G4d9%uW)}OuX3;$^@2h#y9uTv
zHYJ{g>+oaTj0y41k^_v)p@IAGIm)~69jo9N)HPr}>L|!VouDMaNCOB(t#<%E*72Xk
z!4V1;4|d;laH1Q}=}1SG9Y}waKVLC25<`c$UYwKcdixI4zEOOrdr%naa7@6un2Vah
zQ>Ym#G|a6ftuR!_e{T-<a3T$3|G~_bVx%x}7EcSrRj4W6gF44QM*VidqufkZAN7rT
zpe|ywaR+{b+DX$!8ySzAurDuAb&Qc^#FNJ|jOl+;_ElG5+BhSXI58Ki;`_LRZ*>&=
zaox;R-Uxr3Kqth)lZ+I{6O&n%@xl~39k!X~CaCD?MpjWz29~G14iD=^+;#?UPMn3l
zSPBlj&J;{Rg_)!hkIphOj`CY?82J*D-*l^5XqxLxlTjy{&rrX0V7gl?I-`#N6zojH
zx1gSXkl{v8{Y)c2Q2$4m!1;x982@Bl?#wm9H8OBMnc&2gcld_HHx{~?E@H8pkaAI%
zQ_14faK1k36y0%&Ti3^6XX5v;73XhZ7&cl;LvYAH-F?~1=nKT#a!3jNPA)U}HHDp5
z8ktN5AFMJ`3Tv%4@;x@g^PCTO*T^r#x7WB%_5E5SX~f0WxqZPxyv=n#qh|KZdqz^Q
z{syLQUMw3Uw0xt>)U&=#My6BH8(+rL7>{A^y9(byU6d}OuKP_ta8vR)Y)rfdbxpXA
zIx{xd>>4)I?=sY3n2-9&ifu6xgGtyIeOoxty<6d}?!rjF)3GPzpP;T@CI02+?t!Rl
zz(UjqA4eS>CFwwAc=K4)2c~Ry^Tq~TLELSJd+;CFfw<{Tuao*@ItN<OKGYfQ3F@L$
zXO~OWB-G)x9h>1*)aye&bPmBb#OwWDL2Y2YkKBF3P$#z4s5_|(eoO7vav#Hm13mFN
z>ONo_>I5Qt+>8~CdVV5~#a!HuK_9!6A48pB3Vq@>9L-TbO&aQI_c3a{*HMRG%e}6_
z^D&a=%eNfpFbVk7J*Wd}114Z^+=rTha{Juy>y9rHFGihuub?)t_-8JItxz*G3^moc
zs2TbbwJ(M3ch_a0Pv_(v9BAkH1vOQb@>~jE#_q&RQO{pNT}-Nf?i`9b<84OGz+b52
zzs?tK=QG;xQoo<0*7FBygF+54{<YT+JK!q(67>f|u`k^?4@bQr5p_e6gPN%;sHqJ)
z=pNi1b&;8gdjD3`7yAKq&M(4rsTqny9e!g``_iVbd@dEgQlK}KI%H%DMxnNFFKPqi
zuxnt1UmsSZ_yFpJ^c(8L6Y#Zj5bAyJqh|CHYJD}1xXdPFMdGzS4)j~^M}33BN8O^)
z6m>0l8MR@PQCqwbb=|&%+Be4LyE*<47H9aS95Zs5@`=ZdBx2idjAY|`I2R*N7@3X7
za1HwUd~4(c2M=+No;c~^%u{YV9)H^TDe9iE%6CQvU@Gd`a0(+a=ZqWoKcY4?=zEue
zILsoRhdOFPesDXXACSJ~ll5m^C%cRDxuC;2D&S4N!;1Lqzugqw;JlHt#0xIChUQ*0
zGK}kA`N?g)^0AN=S@$!G5!Y?LWF(*SM}IZ)9p?OIWG#-r>{ijhD{TGff71SU77=bZ
zbk*CD$jxgEFX9`2uy@1u*Nq(F#x8#vd4y$eFuo}dxM^fBam+0vi}2~&ZYs~gT;iZR
z?!E)Kf_UCtBOhSsUvAAfhnIEyC*EVjL4{rJyPr~Ve;YYR`R}OT>fi$-KVgrD?#8f3
zM!q55g9~uZV<Yckl_y3%$2|ND)5Ll|%{m(EecH1)mgi(yE6JQMRKSYwHV0!k*o{d~
zS&8L>Dg~{S!11ibOl~rZybk4j>mpVj;09#QlC?#x*SQ84cNIQB?QDr9the!ahzZ2Y
zpRwNV_X(!(iM}pr<r54qZGDnUMYqaWZ{k>9&dMBa_z6>Sbb0G-m3~F-y)y%?x7?Ph
zU?rUUvT-Ek$AYXxV#|uwn`);colA~jKde~E#S`!(@j(>s&#COQUh0=uu~M3X_o`aC
z$ps%*v%<nBo2y&z_rbs#)|)_n#vz;!2)42Xr=X^?Ziw|(y@jaj{WrJ-Thz4PCpn2a
zY_n@wuW!_-%?l9c`#3nx!Bcfe37*EOxUjC3H?d?rE9)@}mt)KN?v2jkW8&~o>vg^+
z4P5zQ)KL-K(8^JqhX*nKc`Ns{ypfgOyjbNhD=(1*Uut9PZM}|!TZ!UC+zZy*rDjLC
z%-n3|QuVO8l?_zzsD<_RhU;5eZ;Mr-mGu^xzHD#OIll@su~wv&#kd`{6URhZZ`7PX
z&EV5*t^Q>5$tVtVTn}#N9yqDJ^=7hJ9js{Qe5WJdl=ErPR%+nM7%Qdlekbc~IEr?$
zQjfS=SL^*==+@13-puaqzNI~^bmRPQJ*~I=hQCO|sW$_g>iYi`2el}WSnJJjwK0!y
z2F7z^Tk^CBSI1dzSq<-Fy+0OGaW&WNM_v6A`)Y-JDlCcls8jlR)J3RxKi5gyqQ-Av
ze;xmOIM5wW+5U7s9+ZTk#C_sj!_rZAMq5!+cNTRuY%{=mJDqu`i_H<7fKLsyG76`m
zHtZVe-m%Ic>uuHgqt>?)eRVlF%z?J_E{0%@1b0Da>_nW3x~}iX>R50vDaYEV6~|$D
zT!6Z0ZNeZtgk|s&>T>-6TVR7k>-|<7k;wS}kT;$~K`bZQCAkWhqBi6dYN{ThexgQ0
zTxR;?E5w;N7_Vbb?3HZ2Rc|e7eT9ZvZ$A)^`hw}$5qF|~sz*b8E=5g-xi=e%y1{r0
z2jX7T2UTL)((yVIgK;-%%Fm;2EXohJG7)1i3iD7Gn*t-;gLAP1@ppbJk96}wl8*zO
z7;2BQ-jBwem`0p3n(;|yZlI3ij$_??Q07%qNcl1hr2Nb{>+Jz=s+5-<Z@uk$v)A~x
zoPP^9V$oFh?RQ~s;=l1}uJ`qt;EhA+H<97RiEfizs>k8?#5uSRQzu&)j^R_Rw83{#
zGjIvDGghAJ`pR(B^SkgRypP(MyH9fsn2x$X$io+P{6FHLF9kiPyBjy5ZZiLaBd{@_
zNL#!b^^@F3-P!b=;X2h`)J}B+wIQLeyKz1R^}c-6`a@>A8FB_j5ue2{%~7RUZrt}o
z9Tpof!m=$#eUsv8?hSfiG_enLarp|hq2<%vvN`}e6Ca;#y`OXyGh73fVGqi0p)N-4
zGF`)0VlVwh-*V6nL*BC9U#`P3fjATO#%rh*x18h5z<A<QsPjhH+phP|M7{nb>TnC5
z>xOAx)C{GeX5w?y`zp<&k96f=1P5(#kKf0r<!$COchgDc<5Ub>!1%_jg>IeSvB+hj
z>tZ)tmtzd~eSwX!M3$Ai*cO{`U$Z4viV}~>w%)&FQ?nWWQ54i#>L!d7)J~O#Op3A(
z=Mq=QVdFssxmXO>t#I?gwv}$wT*g^kw|teAvsi7l8%2*$_kwS{YvmH<Yu32Yl(E)&
z|F-pB*OXzvi9zeE_wV*lEJ8eTy(^!Hg^6eQ&BTJli?$c8dHPzBDI*d_CBK%CoHT98
z)zYSNu_+^yUKy4!aQvh(Nz>BH1(*-Z1=v|JMgMnM%_Zj!oAOKc#oL1ackzec#@pl3
F{{^QMN234$

diff --git a/httplint/translations/es/LC_MESSAGES/messages.po b/httplint/translations/es/LC_MESSAGES/messages.po
index e98ccc6..eb48828 100644
--- a/httplint/translations/es/LC_MESSAGES/messages.po
+++ b/httplint/translations/es/LC_MESSAGES/messages.po
@@ -2355,9 +2355,9 @@ msgstr ""
 "#name-obsolete-date-formats) para obtener más información."
 
 #: httplint/field/parsers/accept.py:71
-#, python-brace-format
-msgid "The q value on '{media_type}' is invalid."
-msgstr "El valor q en '{media_type}' es inválido."
+#, python-format
+msgid "The q value on '%(media_type)s' is invalid."
+msgstr "El valor q en '%(media_type)s' es inválido."
 
 #: httplint/field/parsers/accept.py:72
 #: httplint/field/parsers/accept_language.py:69
@@ -2442,9 +2442,9 @@ msgstr ""
 "Consulte [su definición](%(ref_uri)s) para obtener más información."
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "El valor q en '{language}' es inválido."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
+msgstr "El valor q en '%(language)s' es inválido."
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/fr/LC_MESSAGES/messages.mo b/httplint/translations/fr/LC_MESSAGES/messages.mo
index 976cc64202033842147fc1c7900581338a4c3d52..66288554418cebca766aba6029969b42ae322d4f 100644
GIT binary patch
delta 6558
zcmZA5d34TK8o=@AUevx!BNAdKku*d~DvCrRvBtjdOGsl)?1JH?YPt|Ks<u)~8C7cQ
zSc{fYs$>SGRa&O)R6|3G88m9X&+oo}%$aj?&gVY&x842TH+ycDI&`zt&Z6af5h9Ws
zU?dVB;Q$P+Xe1fu;tO~Z8(|?1!-j$GzBf^y{}r2HP$eVJV`r>~b5O5u!RPQi*1#uN
z6RQOopL8S<A7rE*E<n9-5%q%)@I?#{HWG}fSPN%j2(H0EJb+P{i;eLQtci^(8(C{a
zdSD{)Z&h4DV?tcP#)SBcL~~&o8DV(R@2}X6xMEe~74Rk0cn@~LV%3avz+PAt*P%Xt
z7*p^^jKS#YM(Sf4R>vIFmf3|`@o#)2dXfmM;a)HkYZGrkeZdLT0zSr}7+KRub6kjT
z<0))_Lu$D$%f{Bk=kWjr*EaI1#<(8)*D*333o(|K@lCC3<QN$rh8mfL6T*y?=fWM-
z5<jiyn!I|rk)q@$pw_%~gpp~u1eaoo=ZwVRJJ=boU>-(98u<z<)_3p8L#<$$21fqI
z_oX3;-DLcPLvclvkpz5%+5*iQ8cD)TOvF7Hj}Ndf#zea&&PL5Y=#L+v7BuX6BYkiJ
z>R>*N`rfBFi0?~GBO{&2$iZHC9s6UG#zw;NP1Hek5L;qCCSX*Ikv5o#ZE-K^?D+$=
zCHlYM2H6ViN_@;82Q)GAl$MOc7JOggn!3?G16vVqN3F?SzYSkx(C|P8Y60GEW+W3Y
zp-$5_&0Rqjpti_))Y%Z(!d0w4>U+0f5Z?0V7l||C)4u9PLS2ViqdV9eo5Z^~+wVne
zL4HU}*D`%Elz1*`ll~R8Kvz*mcdZ0hfDF{@AEUNp0cw|qCNlqrQnOKsM!Mq{t&9|K
zp<1$$H?Vwb_rg`EANn4fVzD+x>S8>8jl=OCwrFdl6h^l*vKX7Ae)tUPG?n(QWvXEz
z-|N`kXJnq{rx;m7##y{hJf@Rd$vSp6vXyu?YJnoU7&(O>;h%9<S0je!9^)nA!fr-B
zzzfu-82Wk`c?Rd>8C>X(`}Q<aoOp=OpGe0NWMul|EL_Bk=b)~H<$JrDwDLO*wU4)<
zHubltO&i|FEieO7*NIm!0YAa+X!=s%A|gFeEAHz(z%3A0uss>61KnudhB_;rpw=j5
zkZXzm_}ws=1%(238sf&n9r{t%{@`J*ARRD)csA+^coZArZPW#-YAQ=O<4;mae5p4M
zcbi1Y2-jCrkye+bn1ugKqr@1N?)HMMBi(2}j@lAcN4XYCL9NIf)RprK)Ry=ibuWn>
zZKNztz-BuCeI$00aS-RzG-JjXDM?(A;ik*)s7)M@>1r|*wePY~2jw!<h2;?H=r6#t
z*krt$|3xPlnL`|f+NC>CTQq(WD=y<t@<`|hM^14|<3x-gUWSJ)O^5u+tSoAb_of>;
zfgNWWDTB|>GD0s%joIu4=;Nh2jknLCeTna5Fiw8i$Z+zrX+|cR6rj&rLgyR#oQ!PL
z7xa47$YgGu_nMK@_z-n09DCg@Bo*FpD_sw4M*a@emdHb02`elx(u0EcMUA&*yUpr8
zKH~igXoh}VpTC6p&olCUju8qcqu*ka;li)Wj4<xxx8+7&;ssq+y3xBA>k*e+Wuy|<
zpGO^3?N+;WAq({!u?rcW@)#NT(vP{_5_hd-m&Jm2Sz$4FJ?%4<M4t^t=oUG*(d~i>
zo7e?;(Gk3h=dg-)#bzTv5ntKj2HPj^8(B^K0CkMKxs}1iecxew;@jJdWMGr+?55;z
z!Un{j?QqwB^O2ZIMvI;FA@0Y)7`)5%;WX6E=m=_4SKjTG&Yq~Fdj)D=pGG}`RoLSO
zX<NUOQCH0M*cGo}B1V4XW{+<i3EgZ?`YrZ1H(ioZ_kcM#0578!pz&V!f(+EA-iccC
zM_8Q}Y_reJ`?UQ=mXN<0mtyPzSAa99W1{LoZ+rI12ohSN9T<)Us4uK?$n|YH#u6__
z-F$LU?=SPQYl+UN`+E-R!jgx&{YD>l&t;(QnwwGQ|G!Y5uX#l8WB#X-(4})7YExcB
z?YoepZW^ZfU5qoxKY&Lu<`ehA`>0JH^{IO<4Yfsgpsow~sOO5h$J|kG25Lcbu`S=1
zz~gR>AB17VOHgmvhyCyg>IeFK=C<iYey^eKg7r_h!PpHWiT{H7{BG0*=^<*1#GN#f
zhBHwI;SKcZnq8jBuT7JP+VnI1@hR*;Y)`os>V$d<o{K&40_q3CPrJ2$93~LIi&~NE
zs9jq83)hv=sAFg-YL~43g8AQt#JBz%BG0(_JpgqDoQFDkx1&DrFVq@_ed!9^9kl`r
zF%*xWe(*=Ek7dug=bNFvZxU)n*ZA`<pY^#-r@}ec#LZEs<3xX)kNSboTsQdopcdpU
ztbrF%$IgA!*%JPD|Fl9qczlgI2Fm`!&8j57J`5rMkS3ByTt;2VLe9IIq+lK538?dY
z8EQ+MM4eVoQK#jS3*IqWZetau--e4u{!aekuiVPH=#r5g#1HTt+;rJ3#jU<Ja*){f
z4T&E}y!DNd+n9C5NIs^0>(2K*ud+fCe~Fzj>6-g+4(1Z)V^=)#o$K53-#a^?9$e<*
zGTe`cvGa8!H?YhN?>V33yM(m-r;!{kEWy##q|OfvCS3HR+Y54kq7RAd|7_$q_w~N%
zw$&=XxPq_7_AIfl<<aEacmB4K%iLEY-^h1(9si0)@6e)LPrpkA8Go{(z-<Z@?r|>X
zhS>Y=gRu{c+$VnP-$p*g*Z*VWA*MWJ5b}cLM@G&QkALhAn@PXBpH>%eG5MVeU6Wr!
zJv+{L;(n49`@<c*j$)vX7bQJ)Ke_semHpf}%2=<&wXKzGVpGJ*EnJLqa3)*iQ7pu@
z_;E4o{el|sjFqdz<%(Oc=C^Po@$nMYt3Y~5>uq)srL2q~e_d%Sz9%G#m9erHi?DT#
zqCf{R80(g|!oZfe3RXsQz3j7A^!_Yl?U1Pf?gMdwR)&#(19h+^RkE@f@8Muv6=dZc
zKEjQ3(Wzi7*Kllz^~q*l)PcRR3pW(hu<|}8*0eGnZ{fQ*u$J}C0fneb^YGeM>hs)o
z%p$&0$9fA@kGj?yq-#+Zs9!N1TZOuUY{k>WCBv*V<oOF>J}VVS6bZLd87oFuZx%#7
zXN7ShA(2*A@<8bZ)>{WQ;ZWksxC@&`S($)&s7vg?hE`H>6>7nsppKC>(N<RA_~)%`
z!;+1xx2f&*kvK+1K7NY38e4CZnG{3cXg==7j2En|!&*&TO^)GHjbp8BP@7sAh@W94
zjbC(Qp($P<4s2$n6czdf$Kw6wbhTyv4~w(1gp4ySt+c^`iB?A9##UCI!7|C#I{^i>
zb~P&6#>#A7_#S3(y-r)}{l_Dxo%Kfjcc=x=U@pFn`M3bHI#_v;`-`Ty!581rO0u5+
zH<Hl4xY@~i^D?-L^`=+*u5PeR>BiXL`lRk|P#))GS&8^+Pb&|2@x5N|`Cocl?@U*@
zua!db`*Ole;l5t|t+d1S1FW~w<_&aR6*Wk^fTE5i5zPbdp&lf@!fV)Iu$v8~hgg}(
z3#JUE2ILnEbAv20)#`sRWCrSH6FuB|KQsp6pNLmt9sIzbpNlPtOOLSLcAkPgwW(ev
zp+~99Se8DindUEHx_j|hjN<xA9D}E@FUE|t-aem=iNqIBn>vt=Ro9~yxWQ;E37C$0
z-xiF(JoG(BqT(3W0xhu$@pz2H1vm)zq3-j6W35!f{@4h!P^aSuSOXtmZ44Y|z5g9G
z#USE7sQZ2<>e+8A>ixfsWB#*Y$+H>m13zcF8|#m^-Z?)Vb^Bb5y1$=5E!Zv8O($pq
zgBC}kcHIutb)@)2>m5}3ptivKs0H`|J7V=oE`Q7<=6^#nHj$wv{|a^Aeu%noG?;9?
zBhxa}{NJ%IMo)2F)C;wMOL01$Ms2C2sn*-1UPC=Ube!f|YBuVL>J(nY0AH4yCO2^p
z855^lnTugF_%JQA1%Dzg_h&21@jebGf8i`w;JdS3iv&=Sc=B7KcG>JXR;J)p+=|`j
zx|Vu^!-$h#rVF^=x0!^HI62QsO)h-?ifj6tc$m1te78WIL)`=3{EO?uLewTre${%v
z4SlHRgR`iEx$0}~LusgE<#SBI#~6!kUiS*>li4J+L|0LpF8&SYJRC!O3P)nh0&0$H
zP-C;u_2FpL7r%#k1iOp6_P5Qp-Y=?mP~TsOdSV*9$jyR-7_alckc2+ie6jUTtvSdz
zlmn=PCnCqq>*1(_>s{=Hcl@?q%F;{=u10Nv7R#)>j0<ommV4Xvc_!)-eGs(;f|m1L
zo&Q}(Xw5gHPOn?2H7vQpdjGSTh%XVJK>ZnBf2FI*4Akj&34378Rc?iwj5;XyqYmzT
zjKk`y-7Fc1Lx?{@Uq2ER-*HWnfjU2TqBiM6+(6Be*H~GIKd-e?4kxd(-fy~j>s`%)
zHn=g9iaNdCK&|0r)cebCw9*u-zsDv-exFU&`)^q4Cg#5mmZ;5EYT-0&fh&>9$|YP)
zocX>LPGM4dtM&flVYj*ISbn>eBV12L9pyznwBBL%LtI3hv%~EvwRT#$PTYN$l|$Hg
zxAp$xa%Xp}OFSZ@EFUPc$9n&U`_o6(`yWpgEWrb{{YK(5#4&qH*1L4OOlbJnVHxRD
zhNY)POj`a+fT><CG<;mzh*86aOrAcTyjKG%ntcHk?Mpq%{_m~zmfy%Vm6xwcx5fYO
MfqgsE?Yxfv1$e<$v;Y7A

delta 6544
zcmY+|cX-d&9>DR>IW|$+MiQe4i4ajKDndxi7}XfDX9OYkXjDUgMqOf+T2-V*t7Z|K
znyoG^TB?gyt5yhcOG~xaeSf~^_s6}@ljnJz&-t#i&-vxx_2N6P7vEm+315VWoPOF!
z4g3>(VQ8R{7C0H7$KzNBA7BdBEaUE*hx*(NtdCCz8F>!dqP}+$>h*Up5>H_ze2A5?
zY_Rdk3nUr_8)=O*Q7@c9{oq}U#jp?~A=no~aRQdd<yZ!H<Fj}Y>*8Nn8J{g{B-@B2
zVN>GU<y=9d%e#W5mG>Em=E6cUs^M|JH?Sjd=?cax-~iNk8z!N7#z<T2h!t=p>ht@t
z9bUqE7*)|o6sBNBoR8WvTTv_ijgLe!i7J)c3npL{;%w9x978SOAJ`uwDjR8pvv4VX
zgtf3&sOz#UY)O0y_hVocBQrI|HQ2SPk%{;KV`v%Q*f1l<$=DQbWHOGZW~3AsZlad>
zQG{#qa@CC#BtH(d=1prDnSgU~5f+Rz(iq>w7x6siVt7p>-(cw|_nxb$6)alI$Zozb
zHA&=<@eB6H#m^c^!275zP`|d3<~R(S;x=r8cd<K0N4qA@Le1afkME-vw90cvy5R`a
z!F&Ssy^pXD-<Rk*M%t4xAG_cM?1^>i8mW%+PzTi>jK^F|z{q+=TH!EE#2nPw^A~DM
zbba0pvc=ee_^>}NRo}>CS~3>n_`bw8aHBl~n-OnBt;sFFHDehxJdloBfHxW%8HHb?
zPSa+MTtQ}{w#X^e*$@%uD%KVCz3*T!Ui0TaMxXXo`^K)%R-)GECU(U-O<bJi_YB67
z9~|#mCK<ztC!;p$I@AJvhdR2SNpJ;7N4>rewI%aVyEL>Z^S?he8`RWDC;YgXk-J<d
z+rr3fEYZ@va4G7Ce#8c7S{Vt$hWH)!!{4z%qLJbl)!NAG7=!xZPf(}n->5B9wvCa$
z`CjWbJ|ok~XxYxlDl$I9OT=mI-AdN_MI)PtUqLNUc#@G%aXU`Ji5-j>p8EsO6F=x^
zWHX+oHia;=vys9$6;I+Uf1I3bqzG{@pFfd`MadZEkH_PDUOWkPB`nd^)uf5vai}%f
zfZEjGqBd<<H@CoaM_nhTU;=)Co$wzt1w=Y@cNO<_>g5)Q^Vo(P`u29Cbpz_Gc!*k~
z#6GSie)pT*mj#6aw&~}_!cF>7*Z#m1SCCeiK>P~o3V0A}<8{;pDr5jlIO9+HlK4Vz
zOm&+?;y~9|W06*u*ReVNG>8&ol{B{(tRLb=`w`TZ2pQ^HC=s<HlTcUAk5OCVPt?7n
zZn}|@I075${Ldt@os2y=gQiIvW~3N#-bgoH{zPr!Qlnf=dZYGT7V4l}h`O-sMIHTl
z_$AgE?dHFXF*1cX617V=qqb<najdwEKe<XmKRECuw=|B#8pI3nkfrI6KbiP4HO4y=
zjhw*NnMMNeiOELj1u6e3djV$hQk}*dr_jE{`51zurx{5lKZ|B$qDdb5yd`vokx$6T
zLVZEUnMTHQqi>dx&+s1VSU8;J7LtJ3Zlz1YhU9NXZHcR>D`CJKBb_ODGHSeGp4+VQ
z@geV@Ni+1|`qTx?f1Z&a-!MYqWbk4(87|ydVuW!gx0e|i%nRBrccV84BZv#VWh98}
zwNM9DixqBN7>|06*our#`2!j7(uKJlk6W|ZWijt<R#*&NL;GZq=)BfwH_7Mg+%6dR
zF1sKvI)M53IhNC|Sa0MC@%asIuzj%6$O_`SsAFW_CI%Px{eW$VuWvCj66<VbHzj`!
z)*?Q-&0W9kBaul)gYEPo?!vwpxWo0~IMmJP0BTd0$#F|(2h`EM7`3lYpdP^jcDg~@
z-0x`A6>}AK!1LG?BX+sj;~PpsH=E;r&2Bec5>WSmN!Sa|q86a`9`}ND)TZ8oTJ!r@
zkrr&W*UkHseMT0LzZMr^-TkfrpP-J3kOSWK%=%A4OSBoQV;<@YgATgBO~n}EMW~z4
zN!0s`e&AZ7E$aS0A9Z25in{$q9dgg5qwbn(QRn}!sLxk8toJeh`;yS5b0un1o<Z%q
z;3IAtrudzMuaLhRk6`ps_riSCrjI=4o=ZV((aosqLN4mLqVjQf)XP9E=t)fE`|{+6
zZjJAO)rjY!-mnvU;6v08bpFU~)3g14kGcz1Kj8*rd#p)34fXl=Q5U3ps4Wuvv5`SI
z0d){wM4ztNC7Ar$G>uW4eu6*#2-_0>2epOTeCkfYlQEh2H0lS!K67jTP)s0Rfm)FZ
zs9jp%bJvwosAH%%YL_hgocW(b;#>a>5hvaJ?uNPo`cOyjM$`v>MXh0#FI<6NM6JLq
z495egAH0N7SnNype0|jSjY6&Ha)18WFMV#)2{`4NI0kh(j`YX5s2>PD?FL_G)PgL)
zN_YmfW%5yHOV}AVtuj#$9_LWUK(Vjftcv%WiRH=P>m$*e#97ppEck0zlSHgaJOXu|
zFGOvL<EYc>5$d#@d)7Nf%XKWr^vgbH<P7=yzi}()?DIyp5#Pm?xaM286gT<K$N^&C
zHzY2TSn$1(TR8p)BeyZ-M|ZyOaDf$)_)~ll<1e}o&&Simx!3^@{N(z!#Lv!Fs0Wv+
zxCD3MA#8ie$S+v*7w<Wr<hq13`qjuAT$qdL)TGj71{2Qy&Fuvzuh56Y)vp=(ko!7a
zciU>v4Oj4G*oGzcwOpE<`%c|5@-6ojylvzsynyfF!8^1l*HiPUAmdLK-*uZp!0(*P
zxuNbo_rbdNjoc$%@Q0COIO9(v4>0iogOC>_JT&q(@$kRgVKe@b`)PF=UnjrK->%8O
zM?E`c{NsL-ng6(>*Fh}f<3;h0-A}GAVr3sU4l>p&aYbuo9`QeT6Xz7L-a%plTjUYq
z2bhif3R&+LRJX!bE)W+lV!fJQ!*#?*idwG%sl}|f*@YLkGLZb0C9L@VAz=cn?7_!4
zlmhKx3k$)@rK~WpCAPGcbgmbB%8K4U9$7nN?9=W8v1P2Jkbe<%u*C;iS&w(HFD?zX
zatiO`I=bki5GxmPNO|j%^}MJRdt(we<W;h=5gS*wG8(Vp+t@wSdgp)#s7rIdDpsO+
zZX>=-e7>sn7OJE$>kZPkP#35hn1)TlT|w64XT*i7S*gwQr>ps_lqT^w!b({zUBh~_
zATrVl<3xgMT3OBmMQT}Z9aw|?iO=E=toN*yF?bbqiS1t7$^cx7TJVRcV`O=>l{azt
zb5^!sp*q&v)N*_zj+2p#$8c+1>uoZl>d`lvk2#qByp`4XOnq0A!}wU^7%OYl23C6G
zQ4G>J){TXFc$WCdhE|GGp({8X^Bd9Cbb+r=V=D{D_$1y+E9~CX$`E|JnU%s=w1xFf
zK&4u`8c8cFukymxIFjp?60P?ikNK^wH|l>tEqFR}F$;5X4vueYC6@c8of~`&U$D|b
z&;M_e(7yPsz4hj0V3PHwSIZ7=u#M@+*x>r8PHs>h;ba*^{9Uq@`@HW?7x(;?uGTx#
zmFaHfZ}O8lVYcJGjy<ik##Oznx6)qi?Yb(mk9Gk?9YP|S2UepVB)-CnSfj6-4MqA{
z$>arN`cnh)^HSU(ix^<_KNymMy4ggfTJMKO4}6k%30B4T{P`y_p18<B>uu+Wn5<3p
zDhWMGoyC&$NrgfF5~f-2-)2KlKd=ag;Zf|4QA4b^&(FZ7#3xakx+EQ|E=MhJc)FDY
z?1y^aYOI03qA!v}z%bVWF<6dx2-d{u*ax?v?(-#wTX_aMVI3TeIvv+xCCtMrSaO8*
z{&y6O!Nf_Z`+geg*>5fC{kbEU|7=)Ne5Cup&!gOpVWX{g&hLl1ea=MP-w&Y{>@w=6
zQ)&!@7W<=i-Fv9($Ybn?Nn>3LtU)cnkN5%xjdS^_<Cy=o$yh~(mi$Z9eLEj@;RqjZ
zy(7~+)coHu46DE7x~M&B0q5XEJcim*jWVpaNln4$h+9l>EtP?KqB@G_u!QerH%%_#
zPBPLbTA7L!U*W^F%xb(sTzHa|Wq1oy$$xFKEAaJKU5k{UB2CDTLG7}PDOO&>bGQlH
zPIWDHA5)0qrqKo5@5?43Bo0rvQke@!UUN-<2@eq$o#7U!k5Tu4tbe&ayocJPaWk#=
z+i(Kv`QQZVU=Ez+KGX+wtQ^61_-~BCCRtuVeUd>!OLPvk>FUpRX5uj7qc{Yk=1_B7
zf*L<W9o+-wx)-lRJ%U|FUHjwbS??FsV$}EFLp?Edo$qEr4mQ#Ge~*MdSod}7omyuj
z<4|^>ejxM>H?Mo44z6X`1+V#SyojZl7F>kd0`-<ynTFG`KNeo<`aBJFiOxZ7fl|x(
zuFn5N5?b?Y)ai8@wT9+R>;2Cr9S0L1Lj4&Yw%pZZEb8<-g`F|vEw{oAM;(;gQ3v-`
zY>YuG+$>4Pe#BeQ*MmgBO4lTVQRn9d)V|8cwbU$bm6f^pbGDTyaQJHL{ie%Y<7!rF
zts65vQK#25)Eb^fy}!shD-AH{9X28Ilis!7f5Upd%ly~DQf<AJP#lGExDctVoWd2v
zX&bF@3X=kxtoI*}zc#z+SY)e}!(5L;9p#VkGOmB$%6y!?&Fv{=w_CYH+;)eRgIF`i
zdjD~`mJ{O=cgZNp2OeQjZYZ|PdjI2j3N<e0w<;DUj@nr);{2`RnZr{?roEJsHfZv)
wn@^jH0huEP4IG-%Z~Vm3gC@@m4m5j%1MT3>|9e|jnhpKG+xG5Dv(sPrFJWa-BLDyZ

diff --git a/httplint/translations/fr/LC_MESSAGES/messages.po b/httplint/translations/fr/LC_MESSAGES/messages.po
index c534847..8a39a35 100644
--- a/httplint/translations/fr/LC_MESSAGES/messages.po
+++ b/httplint/translations/fr/LC_MESSAGES/messages.po
@@ -2355,9 +2355,9 @@ msgstr ""
 "d'informations."
 
 #: httplint/field/parsers/accept.py:71
-#, python-brace-format
-msgid "The q value on '{media_type}' is invalid."
-msgstr "La valeur q sur '{media_type}' est invalide."
+#, python-format
+msgid "The q value on '%(media_type)s' is invalid."
+msgstr "La valeur q sur '%(media_type)s' est invalide."
 
 #: httplint/field/parsers/accept.py:72
 #: httplint/field/parsers/accept_language.py:69
@@ -2443,9 +2443,9 @@ msgstr ""
 "Consultez [sa définition](%(ref_uri)s) pour plus d'informations."
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "La valeur q sur '{language}' est invalide."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
+msgstr "La valeur q sur '%(language)s' est invalide."
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/ja/LC_MESSAGES/messages.mo b/httplint/translations/ja/LC_MESSAGES/messages.mo
index 222c07fb8e475511e6509ffc63e231a5a5f3fb65..8be706b046f3aed8990a13bc183e0bca5908f5d6 100644
GIT binary patch
delta 6552
zcmZA5X<&}mw!rbVx0<zjBr2+6N@A8ELP;b+3`L6+X$%P!Q7PdlIfmmk)=)81*QueU
zrJ?4r>XaHw$q_B3T571Gq^c-~<o?&Q-!J!m`aNqu(;n8|`+48|!qN{5OK*DSIbUrN
z$qg`47aw6S3=K5W1}9<@JdBO-3HHPA^6t8MsQ2H-D6H^;k%ssx*2D>@=htE#%)=`9
z6suz83dSd$IA~eHNPBz_^~ATRFT9U0W33<~LD(Ow;aIGM%dkA|#s-*+jj;f$Vxx*i
zmK%{oj3@r%MOV?tO0HrVm3&4bII)O=Fg)z{Hg+Wre93qf9Ecik#n-TCWh1X(cYFy~
zqTat3JK|N0#E4)c^)L;CaXxC#Y({PPIUfhFa}ZX=Jzy+WC;kZa0f$g4_!v{MZdD^K
za277cqgWqPs<|P{#suO#+>JrijZD)RKg8r3Mn>ZkY)a4gMuiypih>QHM*fMz!;F;W
zL_TVb3v0SA53Xh88Oq~OTb@wcNEXh;1z4hvkr?~{U&Zry6KmHs@*M`&bI-Yn+Q2gP
zjcn)r63)RE3a())E@@yS4j-ZRK=W`TtuYhhaVxgO`<R505w44~QOiH~$B$4e8rINA
zPaKY#%wMBEw-EdAeu->kq%#Hcu{&PEWQ=NTq!!LYO{&i^7VlsjHi$IR7BjIO?m(SA
z1*kod+{7i>66`|!l|K%MGEzuS#$Yt>mzZWQ+s9xl;?Gc9^1I*gmq{9K7>Zhf#m$Xm
z;u+Lw+O~zO$a|<gl7~7Q>PEYUC8IufEmpu={_-L*MtnL}T{%!!qP8d>dtg*c7iatZ
z7NaSz6zh5>2}6k|qIT&T)Cyfd&F*S(t^z|*&wqj1lXp>vG&G+1pGwQ#iZ{{?kF_##
zmlKuS7@3J>6WjxrqQ2-NHp8NAjf7xJ{2t%Ldl=o$NGXhHZ)6U(Kz;FX)M+XmT+dX-
zC%msy2cMD2THevfG73)MCE|?EZYAsVs*xPx@u(H5{hE=ZxDChQKf4$)-1ivI5I^Z^
zWF4NSHAT^vXrvfU#p5{3A1A$Tq&RVk&wr4PB`C=B$N#|TJa__Xa+d7jlB_4{O1T2H
z{8t=^Q9WIfEkkYb9n`L_k>rM=Cu&l!#+^mTew<6}+u7U51`gWyantW1_9ss2>lUUx
z_=x!V6eB-lDaPwO{)T^2!6W_rWBaDt8}6c3EOCIF4Ig4W@l(ICX>OKHMDo`sXE|WC
zm2&BBZEi5gnTC@n{{VTnR2gh!3HmbJ!W1;b$lrNzQ`9{o2Q@jb;wxBfsOzb>F`jrk
zYR^2xa#$}@mvrV|EC<&pn1=(N5y=|n#_Ym7Zmqt8I;~2NbT1l!I;P8!%jIL#7v`W&
zv-@}pn~ib}3CS|@K5;KxL<8>ON#Yr!$vN^*lE%0PJ{aq2_!KqE8;xUV7^@8Y7uUTw
z!N_6UG0{k%CHW>Bp-ARWHL?-|rnw~EM&jsZ)omtAJLRkK4NRZql6HSK6(VjqoBkiq
zg=glFtvs;%Ts8|%^qOxZoAN6Q7-Jm1(1>0)km~D7b`3R-TI^c59kuI!LtP1L^Ym>z
zZ#e318Mf5OJRF5vC@(>4D$uY!%b5R<dEsfQ|2IyY{K&`*ytLZLZOR9)(F~!7J~fh#
z-=nUKaXIXAocCdU;zR3bA>Kp1zVmus$oUgE15-A*p1HA+*+4vPGs%kIZlV9_O^MpZ
zE{40dlVm)g(@ytcaSekg|1UP9Vu8C^(}_FpaeF}47e-ca{Vq(zq`iD_aNT+wOx$sw
ztI!VoH|0_L-L$-afL!BzZQns7?{F|1XJe5=M&8Bws2>s)8SoTL!&p3oI=zY>VftVq
z>QXx!JKzu46hn`?^L;R$cnS8#^Qb-5^lKw;qi-GuZ8#`EUGrNXbJ@NW2NB=HA=vx4
z8~bCZ<(0nC?Nek5_Q%T@O3x&maQA1NG;)aYgP4mmbKQE9{2zDyMx<drDR;`%?C+@i
zb1wG7qIs@m>8MGy4HNJQY7(|O?OL(`TNB^LzS!_v*K>1GXVC>r#q!^|o*0FC|1M0@
zY$<uht@ZsejS~w|Z+MLQfL>?ajSF!-@fj?@$=|ydPdeu+b{I7W%A9vATq?d!yaO|^
z^bhVsBn!2oxfsj)rNIUFqM;Z?yau&ve?nd1qJMN_zY(<u@-YdU{N#4U*{EZ`4Rx#w
zP(NhiF1qU$qb6fM>U2!L<aWUv^l4I^<De~8{MjW}Dt05@fSNSsvRjz?qPB1W>WX*W
zA2+(<?td3GhfZJwhFo<kW_Q1HQ1AO1bs7g=WBw20An}?T%Y&%9R`4&bCEZZ7eIe?L
zFQcyEQP<srGEm2I2R6duzq*B}IciU2q0WxoSO<&Ua34AiQ5!zt2J>ILbRPve3yR$|
z@;P=y?U7=)+zUISwrmn=3(jE(hWzG+paW{|WMUS6hdPv<S;aItr=TYHQPgBEz*^YW
zcgNKz6T>O^H&($rs4aRf-_<l8wL%k77pSACADjJtH?kM^VjZU6*t<qb<0pUc{XqGa
zd+vOTKUsi?AE7pI*M0Xv;v4b6t?{uBjr_og$iLWLdBF3J+$U5x>$AS_OVkxB>A&s=
z#a=AVbqP;gc6Wa2hHf`%MQ@|_Y-EA^A{v7$iNgwAQXWBu)F)NNdSm+z=5WDL%;mu&
zjP*97)<vwh?;n50N>9oM6tmt3$rr_~e9ZMbN?55#dGC@|cCo~cDrIFbarm=V!f@$x
zRtmXpe_1OR)aR{yO8Ig&oLurx+6P!kqadifl|Q&({0mmL5D%|l^?Ol5Dq0D|p)XqL
zi<2u^*@%~4vfl1EKiGOhFs+L9ev&0rwcg5i0gv&#kE&TYfJ3TVIg1TzSZ^pwhFFOr
z|KunK-LNp!dLN11YFY^)4z6XrPp#Iqtv4jWb*#6I#?-a)ln3SFmw2L{l^vK}-^z7t
z)4+OP!}Y?gEGMoSVZD#mFOkub=?$$+rF?2*E56q#C>=>xP|&LhT|`_r%F1vo!IsB6
zWX#J}W^n$K7FJqO9uaM&HRU5>tn8<JXRP%;CP&9vxk_9r-g@7Z`KU>_yp@%b+*gyE
zB8t!hZLDNq|8~|VB)Xh@#d=?{dplWK#tk8zt&GL5P`j|@t8_V*e9g-L;BM^0eTiMH
z_np7FtMwMD_-@u)PnP3gt}B~py&tt>P`@AkLQV42*R8bY{^;&LE14Wj?O~+{-tTE8
z96P;Xg}jq-$yT;<!-U?}TRJ2ASQ$e+1rK5&j>Lm~Nlt8@V!dC(^HF;=EY&6F1N?ya
z`Tkap;Af~y^hn>ER(|2&I6lHH1KbPOr;&ujsRLbd1*E&AIfYt*xr3}!r=q3bau04W
z*!9?PoXPoi8CHJ6JS@j`o8Pwb3LYHdW>eWrD-9R|-`ZhTn96c?gq0O|dL&(pBeJYS
z;<Kaa32ZgS4ME$nu7VG6IpsOy7)xH%VZ57;+fkFT7d^WP%T2Jd3J>5qu1}w6WfXD1
zWN%jaWF`k~Ik94jm0I}AR9Dlo)2zHmoIKqP(MUcFb^c$QX{9B`%yKOomrYj^&zViK
z>G?TU+ThT6Rwm=t`BV^_F0|e+pjC^k_vKT79d-ZDSgZ$RG3stt<bCV?rc1>W+}MAK
z6*e@9SZclhasofF-X~c+>KK2B`kgR*885~htbq9#jK!B*Zxaf`fy5)QJ)Xx*-Y+#)
zSnnHf0e()>m00O2bl@ZFechH_MN)EI3~EJ(;G4J`yJ6+kE;)zcQsRBM8hd^0UM!zj
zZ@24=`nw<-<MAT;bgizo#(LlHgHX5MkNuv*mx-TUYvnC$hq|wCM%~3OV=C79)K&03
ztVz7b?-jqLb67VhZ;aZ2QK--PDu?;6)8ZZl+BI|6xvqJLdPCfL7f;4$;%`tZRPr-d
zq1HH!_%qaL*kps1iMS3YVf~FPvA7Af%dewO(}+!O&zZi7EY-2QKtUZWzuDaohx(u_
z?17I^&v)VHi&kJPYWa5550o-n-P)gwIwW`TBDUdYP;(5~?#fdzjd%;*z#!iaH&%A1
zl{*xy!6~?ytxT89O1rH*CJrSr=3v!5tZ0;P!bZdm_PPr7L*4cMg`+7i_9fF9C*Wzl
zZy&P^|3vMv7W>HsuJ;|_pfU&L54f>ue9$F{4~6nmcz_%74!MPA@nI`NiT`%QT{i&-
z>3Qs@4?b$WkJDwCP5c03amv^1o_G*-sB0V}`*r`H$$_r*k1-iX9d{2th1wG}zHu#I
zi(2z$CtUeH)Er4T>5_0dY7X2$9xN%j&Ro>l68j&wNv%SCPvj}RpZPb3gYgvPVH|eN
zqvb{T35MFD1>d=8bRQ=Xw>smN*h8o<>~hx1O?v7uP9)xZ&TYGm&$}eeLv3;N56)GX
zKwRnq*Ykeq!htS4c~~FAe{@~f2me8Q%kO}n+>3ui?TJAbT?KweO{#&HT+6<}cEmM*
zb}!1rRO0QZ4SnIVYsez>jiVswikl9LP=B%9z$9#W)k<+X<9)1&D}J#OLrahR>OR$q
z-gGbCge~>Kx7e1kJGR2DSdHr+U~>$*ZM}a^67N{~mGjAWnE!8Z&^n(a#AT@Q9whIi
z{O?va6QBQsmJrXn=dw2MzFWaU9$NXC^8@iXw*QM4@S?y+R`w8AdTixg;<NYy_I+Zd
zD2{yUDl)d9sXLfdV5KT2W?&g^%qg@|7I*qR;`glI>sw3KJo8(b&{}Wz8=5|{UwT^Y
z5%1p!Fu~7-)*6yF;H`cs?~EQs*|dN_voj#j7M=5dFRi}HR{wvO?(DM4uIT;0b*`=F

delta 6544
zcmY+|dtlGy9>DR>^B{?E4qEQBXlpaA(cH~MHXVeuQ8OE@X=^5OA3vAml8s6#ayiIx
z$!!S9EtAa2q+AXT))fl}2@^Z-&-eNLan4__@8|j6p3CQXp6~B>tE}?XvdSCESM>#p
zNKp+VPv9+l2^-Zk(iz9&)A%Ju;%!XDuv+fAT-5t6VieYR#K=?F4fVM>sOOhsC?3X!
zcn1Tqc7XB8-#BO!U?di&p`JK``oe428XG@q<WWq<MmP%V;zw8uw_r0ogw3%O1F>0c
zBa4hkPmCeHQpZ&^qOPl0dR?E92u{31!Q=R)-;3CbxOzR~Rd66`ydHa^sc)nk_QHDj
zG3x!>@i{z?EwE_=BTX?C8(<!4&#Xml_%R;`@f-v-bPpJXLBxwtAFvm-f`4EN1_v5x
zi_>u)7GOBO)W{9l4D3RD7`J21AS2T>#=m32V@Af{ZEQ);_=Yt$@+AeUn;037S&tj3
z#)%Tt8s80eU0x@|NO{WJp|(8c2_vI$7QTn&Lyfe@53vUx$4l5G%*ZjU-qbzk7t{tm
z7;a<>@0TzR@+m0B6r9`4NJqSh+5=Hf8hHjYF$ULT2fT)TF(Sfs@eI`R&;0RC)QSc@
zWh4=^P?LE->T~a6f8H+<kw&^xkcThe8GI2Vn;QwiT-2oc45RT9cEr#YMxMn??27rQ
zv!@ibCla1^Nj4XsC*I|ct3??pqbFNqJKis?Te)l>iJgd7p|<2VzhSLO8g9ryt-!l&
zjAY|c)M?tOt*gj1)E+sEIvax9xrQa6K6g0=;IIDjGW6+Kb#L#+>|@jxm0$u!c5v|w
zzelhg<pI&IXX3F5@p#lOU4~krlc?EUzoV-_2I~23s6BZZbx0e<F#l6%Sz3&d-uP7~
zBiA@lyR(s*Sh<UP;5^h9oyJyZo;A`K+u%tYfH$yJS0fK$(^w<3u_fw@51>xdKT&(8
zcASwvd0%Xt&&U)Cx;$rOAq5BVJaKw=x01#7FtVC>ENX?C^fdA{ZonKI^SlwmeShF_
z;@iE9tid8$Qvt{IG4cRT!b3RSAIHZVsYv{i&wnroAEY4DAHRXqd2kMDa#l!iN!AB-
zrCfko{u91}k%=zJK0<BrCDg8N*w+n3AJn8?f?Lax{Wyo%w<*cUIu1Jbchm0%4kV6G
zb_>&1yhB`NfRSQ+fblwo7w~r~xG&W|wu9W>a2d5?JzsXSVIjs4-|^cv&CRm$NdEfd
zI}TWFrE0ocn?naXQ*kooA0qFTx*0}3#BrH!VXB#BWEc-_j=D#zKuyl`*bVCsaXmE{
zV~97R_RJ0ZD~4q2lFs~V%fZhS<l@WaMTQS`V|MZlw^pA+omLe`xEH0Mj_G{la``*z
z3s;~{vujv_Ek?SA1dcND0dXR}PXn&vVdAM{$T{*);>WrNULWUbcn3Aho8>Sxj8!@=
z;JQa98u<$ICmE?}NxmsYD3ZLXMwVc;X)cL3kT|+o^_a=hPWck-hl6Ihq}`cIg^1ha
z(f<>;@aSx^l?V2k!)C#W#CMJ4Qhx3|#u&5a8qw<pQhi;?ic#apd9H;UQM>*E>Ppyz
zr*GzYS*W{Z(0n8B;4sXmygaQ5pkZ4VGXG0?VG-5;3nvPf8kvD-mK(WD`78g>455cs
z8A-?QQCG%xtJ&o^KMuo*_pYIZcop^fxKDW@=MUlxd}*EQnV;7)8;GZDBw6uDKK)N`
zO5|pCG2Fa`B;x_GTiu66F+NK9Eo?=_s&8jaCyv|U_JHAE7+K8qo3RhZ@8pAn>sDe0
zao0VrLixCh^2ohzT3*{nu5rGJufWI~9L&T#EW@`jZ@>GHsKtN}AWp?-+>1KB%mJnk
z_C#H3XJQ<lz?RtPYj?gM#t_fNBs`AVQ_T+=c@2HJ9CYTO6m`vyE_B&G4+j%p#VqW5
z$c_D1sO16w)a_GbA`Zl}*o2;m`NrL!e%Q!<%J*OqzE$MblY}Gg`ZY+yd{XsWSF<6g
z`|}}8MRU}(Y!GTvZNM&g8#M_#eCJv+8=oP*h{+iKz3aJIsI%xKrr=+Wxt<t?djDqZ
ztJzZFxLfO!F^v;*P;dAH^#O?|+>LYaQ{tm|AAKj?izoccRqRXD9C+}QTj7#0o;V*f
zvEpg>Au=4bqK7b=_e<y*_o57pB3_2twWm;5xK{smW4{Kq2THInK6TdZiZfBiego=Q
zm!f{iv^(dndlxksOHij{!g;p~u0WqA)iDm9#ahKKxstFq@oLnhxre%RzW9S{;cV0u
z??->!>_>P1WYiowh!Gh0lUp%+`F$JpzWu1vxcbk`|Dhc8{Mn7=9@Jf{&M&SdJy5fK
z4r<q)MXgBWukJzVsAHLrky!46TZp1idtx~1?AU^#XfL`Cop98K=Uim|YnOgOfzASZ
z$;ju}6}3lfiF;ujYRe{|w%`~x#=zg)5OhJ!olG2s-=Yp>9IKcn=S0-xE<jD@QVhXP
zzALUqnfN3HpJPM3gxaEquDY7GN3GC!)CH;l^<%UDe~j$J?HJ1R8+FY{Wn6ll?+41)
z-Eiky{>}nKd=s^Sn{T=g5?}ToZjEny%gAX?MBHY3<pEXhxKF4s)@Oa;4%8JZ{;vB$
zu^lUNUCf^@yW{S;q1%F5(Tk`(8*$%#5skzp#6e{)Dfb~m>f^i2dSg2jS93uD7V+S0
zW4+BNx}5d){R8E#BvPL8fb~8|wpFz93D@U8Xr(sgeJfen#u7X1AuAcgVGmn*9OqTF
zQpR;Vt64dtR=2W>^7(8yMdY7!u3;sOf||9gT<3zZk66hk&I+&+hk>=N)WnQBR+7<I
z*UEZ4ThDsCV_pO64Z)O#*852o6KK7a?<5xTyhV+y?88@sten8`$E-IL6&hQKBLAd-
zgWh<ziS<4bdjwl)Ok5|#dY@X+PgrkA>V#Tv8*LqC<sJ_@guC%zQ!Ah0jBqQzV#j9I
z`x*{;(#j&@dJ)$9Xx)K~mc03tm8q0ZYHr2XlY)vZ=n4uFpQek5gQKjxj^)|%c!!K^
zZDj`Mm$tRiiSnlHtUN<`c6%#(Dc=-ry^qNe9j*LC{6LKLz9~yklW=|~E0wtKF>Z<|
zM-Ozil8MP(txrgFDePvwuh{K>v$BvI0=ruohr3X_uuTuT94qv+@)2&q{@mB|dFy@W
zukB^Mg{pmT>#ZmAF@x(W_p#oO+L5T=55J=(c~ZQUSnhB2g3pp@bVY)d1iY4L<w=a~
zXNA0z(Jxxr#0@z~)>}Fw`db-GJP`}<E{?!G$s{L64Y1y?;XKqH4N7szc^y9{t}@Wd
z0bGT;M8EDEWaSqQ4&WVJ_p*E8$~2OYIO!FaT-DND(tLwjfmwsC1X0n7uet|^X1E?Z
zfHOJ&Os18yco_f6b!%U<(hc`yx!F`X+e$Nrz_)y;6{fO$H{8l%EE+)<WA-R3EwIuU
zdICF)bwki;oU7n<TtxYb9LACtb(!F%<3`kEOr&QwVAY9Mmf>z(!}WtESs6)OZHhOm
zeDW3t&vIhHn^r>bhpDcnm8V&$L!2<(4bkg-80!2lo@u26ww~o$HaeHCBz`-OWYhDr
zt#rnWcdSgo_3u(aY(Cd|zkn9MZ@n*{QhZML|MYo!Ko+C!c4cU|A?X7v-(d2GR@l&_
z>3r+`ms9;?>wS{7M;+sZsNV@$3wbfFzyK`423T&9^){g(e1$k0WAQj<^L}Z#*m~c9
zv+;A1uKW^Lq1{WFew?qo%z9tBEm13)hJ$b;_QqPvU2+b_`NZ3BIrjO)z4$gp6L(o*
zz25~>F^2dA`gE<X{SWJXzo(#XzYG0-i>-+(thDkfMx*ZQt5A2bQ<#E5tC%%71%q*u
z-_w4}t!CYzJPfq~Lr|ad`D*6BPKy!>v}>lXab0s2^@diTx_BJ6BQ8L#kXh?0)E1`^
ze}Xy<!`E4vgv)R;Hd)USiz`vP{2b~u4cXxKoQWIAQXRYRDG0@fH@X{Ip*|=Z6Yv`9
z`B;9wXa$C&maj$qKq<e;t^K`GhvXuj!*=`(YJ>H*xbj3yBVLUcvAXXwH&&&1g@VOf
zt-OhOY-PG+*4S>Pl(;^LF&iJ<!HP!tN{l3ae5b2WKh$0CJsd;%{as9F9KGAhcY5C*
zW*Pp5+GEZ4k_%k#+rdG74j$g;#wM)5CCMlh$`9f`ZYbRE7M{GXtPCNpbiiFV8VBon
zOw|W}ZM~1v_c53F3TpD@9Ax*zFHncNZXwyP`~PGPbgjRRFXE6x?!gC9d!p_?UCWoC
z);!`HSH2B3N7^5DNjMQT2a1sgOJb4p0P1XMdBkl}3sB$F^jp2($Dhs|OrW3;J7U~X
zT3(KyRH!X_`<R<XmvJ(2o8xYY-HH0b*b`PR(Nnu{67i~kxotP>luOb=)E2im?OcFe
zi0v7!=lv4Pfi66S7>>dJc3t-Zjwb%mZ_-)!;$x^ik#f#e-~wt=C7*XKE5NSA4U652
z(lLd2Eowun{@@yti@qERs{iPwLoVtsmSXISQ9oI!NN3E(VEo`0EA46N?hEcy?cPQA
z;+2<JlJ&tQY|GdkJK-8^#PwIO4OYKwy?;)gyJF=6=X+ma{`cdc?NyQx-$#u%A$cbc
z|HsNk;-lAT3GtgZT-FxebSqfBTULrWpNxmF<85BRi>lnQvV*ursg<{gi|`Rl_|r-S
z%(~|)GW>o^cQE$8l|W8R!YbUjw9HC1T<>?c-y*-~HdP8f{@X+2UP~R4J|Z<eZTtr%
wHB5sl<Fe9Tel>N#8)Js1jh_}!(`*f>X)DbB-^)Ul*`WWsY-`_Tc5%{w0l^BV;s5{u

diff --git a/httplint/translations/ja/LC_MESSAGES/messages.po b/httplint/translations/ja/LC_MESSAGES/messages.po
index cf5284f..6e4aaeb 100644
--- a/httplint/translations/ja/LC_MESSAGES/messages.po
+++ b/httplint/translations/ja/LC_MESSAGES/messages.po
@@ -2070,9 +2070,9 @@ msgstr ""
 ".rfc-editor.org/rfc/rfc9110.html#name-obsolete-date-formats)を参照してください。"
 
 #: httplint/field/parsers/accept.py:71
-#, python-brace-format
-msgid "The q value on '{media_type}' is invalid."
-msgstr "\"The q値が'{media_type}'で無効です。\""
+#, python-format
+msgid "The q value on '%(media_type)s' is invalid."
+msgstr "\"The q値が'%(media_type)s'で無効です。\""
 
 #: httplint/field/parsers/accept.py:72
 #: httplint/field/parsers/accept_language.py:69
@@ -2148,9 +2148,9 @@ msgstr ""
 "詳細情報については [その定義](%(ref_uri)s) を参照してください。"
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
-msgstr "The q値が '{language}' で無効です。"
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
+msgstr "The q値が '%(language)s' で無効です。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
diff --git a/httplint/translations/messages.pot b/httplint/translations/messages.pot
index d9c9fde..cd33697 100644
--- a/httplint/translations/messages.pot
+++ b/httplint/translations/messages.pot
@@ -1718,8 +1718,8 @@ msgid ""
 msgstr ""
 
 #: httplint/field/parsers/accept.py:71
-#, python-brace-format
-msgid "The q value on '{media_type}' is invalid."
+#, python-format
+msgid "The q value on '%(media_type)s' is invalid."
 msgstr ""
 
 #: httplint/field/parsers/accept.py:72
@@ -1786,8 +1786,8 @@ msgid ""
 msgstr ""
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
 msgstr ""
 
 #: httplint/field/parsers/accept_language.py:76
diff --git a/httplint/translations/zh/LC_MESSAGES/messages.mo b/httplint/translations/zh/LC_MESSAGES/messages.mo
index 0f436d224652b1dcdcba21eca16e835980b1972f..863e50e2fb173e5db437b6e0f88d869b4160245a 100644
GIT binary patch
delta 6558
zcmY+|dti_C9>DR>_ld+=&1`IK=Dv%|%w<E{+{!hQYgjZBM~ERL(l4RWLMfM2LUVFl
zqM@azj&Ni&sf0MXlY1PeXmQ@3=kxq=&R?(R^L?J@`+V=;@9$T(z2dAL6*rZ;BUE2R
zN+X>##B2B<CPX>ufHN>1_h2(D!(2?QYR|oh`u=%rfzj2RG{qj6gioX1UxN+s5Z1&$
zu@=ThyO4C}qD{1uE?9ti<4e>JUd6jGImSs04#nCy4dd{2tcu&PF_vO;yn(f_*_}?7
zJCQ!vp7?UC6*Mi*3N|_}<fI8V7LkyMdjij6FXE``&M)9!QRB^cKbDVoaxeD7>bL^+
z{T<j1f5bFwQo~6j9F8?`A!^IKgIe*UAujrIkyz6*n1*$TSD|LG8?}JfaR@f7<s=iI
z$Hll8Q!uBtb=f@ZNPGylVN4w-`5NO&%&zO?2`s~wv`lDnJtsR!css$#bR3`PB%B);
zQA>O?$(p=IvXgS8w?nOY$NEkl#~1J=ysd$g*7zFsz+-p@>o;`r6-G6(e9oX&Ff7H%
zR=zK(TojS;6Ar<pjh(c^Yp5-dk?Q0g%)|D$8Qb7h9Dr#}tcmBLroSJ=*H8<Z*wjgX
z9FIDfKSj;=CJyHNlGe=0eIzWze)uhBV~gfalJP~<LG?bi#S7RD8>czxgn8H*-$k80
zH&9z5JKYA^QtU~*Gl(NwIJrqnw#F>JFRfeIXrGFA6K_DR$)&*5yBIXQFc!4{i!+?$
z;bGKi+9}ftQh?ebhfrrj!z`;<Hfp|WFdEMW>9@3Y64Jiv#f7>8wMG~50c_F6;(38z
zVixIfZLMVnU;^<B)FyokwLr&FM|bUZR)Ddn_qU_A<gch*n$Vv4KZKf%Z11Eu?z`K`
zuiS|5;N&?B?`Rn=L;cW6Y=z}JIjM(j@CZJPS1_xylS<g6i<1SIiTdFZ)M+YRt!3h|
zjPG^t8gepI)4Mr&orDAUE%E64Y$fa7!^v9Wr%(%2|9&TXaSJ|)(|bB`ymuWB6PNXJ
zvJStXHsvwY$H}cY8%yx{ARf@yNd@AZP;fB<ZzCZuh^OEjGJYC$X|4Extq<)2M_^sj
z=cA75BGiTEG}ghY{jG&sp)SdTQOCprtmcV)h>sD6z8Ywwy=%6u(S?}AjnW|g4RxWZ
z^PrO#aU0IVZi6Tg1w4w{#PX1RARRRxhWg=GQ1^fmY=Bo$$3U$dC%bk2_vJ$SDwcr|
zgKM!0euCPkhf&AGzFa2}d~o|v7AWG+9=5^wFRV=*H_R5S)~FvEgqog@`oX`Ww!jJ0
zE(sg1gP8dj$;B!XvT!*~a}xD|ryg+<hO;pP7oxVz0o40fQ43mz+VtTg?Za94Eb$1`
z3SGb)tT4)nM+HXUEaFk4o&2Wr{~{Nf;i*TR#Nvg(ieqR(3RDkukUfycb2wm}lc|_9
z-pS`Ye{6!2%eekAC&%!OiMA(9oy1t+xi$DT=_QkGmwoebCnt%|VMtfH{ZrVNc`)e-
zYx2(IKAiN-Y1a2EQMch%PufB<0X5!=+SC_Ox8vC9_Td(|pZtcQwpdeUnYO?{+(h~|
z+=-)RF#i*{NSWz${79c!PF7&iZ2C;&d|jjI!#TF{{e-#>B+Pa433fyMK=^akMJ-Va
zHUX>h{(20<odq^_N}qS~3-`a9=j0C3OXgFO7%q-2aFU8wUa$|=U1)tj19iU7M`n!l
zf63yFFWWSmvdA`<S5XJq6{PHvwAiNYh9$vy0KX-@$x@rf5zA~LYZc<+AzmDhx(OXb
zT{>&LYBd>+x+$$jZR$TzSHQ&AtmZkWOKCnf!xGd{egpMLm%^&1=ZAr)o6vKpOZ_*f
z-wQQZZZAwheef;RnjFFQ81{x0qz5Jv&q4jrM%3rOM=ek!{icJkJL+s{yVA)LoQkut
z$|_4=in@n<fxH)z%5Pc*U9mPdo<XfqA!<!dqfW2rLMvDY)IOeqx-u4_u7JOwW?XZ%
z)qD`@0yGCx@O`X<r%}hyU;Y-%|E65jBq1BMCR0(j-_58??B&2}Z`n~T1Lu;y0ClCi
zbB*nWJx~k!IBL@uqITIq)C&C(*!J&sgqw+tb^d?Eg^uD2sJmLVwKh*PQTu2XY7Guy
zCzN&85}i@IWEyIXR-wMX7hB@_z=ZV{4@PaVMW_|tk0EW6b6jW!;TtUDbkq-y#16Ow
z^||Ay8Q(-511;aSJ{^Uc;cC>b*p1qie+0&Fw74zmUXY7g@PduZ|BhS~k&ueNqppC-
ztP=X*J%M9TKfDBWOq2%cH?S6Q@;hc%tU){qwZL;xyJ9_RR~|v_k}}kzT~blVn!aa|
zlXw!Q;9qeuY6gFzW>9Oh)wDZm4fC-o?!XxQ0=1>ip|(uZE%u>ds0Cht`rL=8`F)Mm
z@Rrb48_lt(H~OO9cp7y{U4q&&n^80R0ViUWckP^?kF$sm;6Jf<v6E#O`<~7BtvHnU
z)@@G4;Ygf>$8b7^dcJSx_s?)L2}3`yHUB8;!ZdEXlMz^oI*MEFu(RPbTt|Eeb-{Y-
zLmM+CsMGTrYEw7=$PTLy;X>lia3JP>9L)a@>_YyHTB4MHIEiu$a@2kQ<DF*FCr(O<
z3wK$8C+@bT_qIJw-XwhpzQTLu{^{f#@$$V+)?mS>PUd6UJ||=F6Z{u8E#WlG_>;=}
zom?a#`GAvGG3GPI0vT<=O~i*vofP8CgHHaT&wbAM9nYXP^_fFfklA0@-f;pSCq45^
zJ0ot!M~ItzWhbata0qe3!%jBveR-Y>ty#v`R?<pGoNOe11;=97qqda3hogvl9<w9c
z2be=#?HlXc$(T=kDlqT3laa)~p^ll{6AWT1b{Mq_B2F^@i@6xh#Y<TCTPHWL7!TsR
z-|@?a7xKTiUpS>d_`lgC`bVZC=?8Eg&z1k#cDa{u2JuPMCeJ-(Kfx~HHsZ|FPUwEQ
zise1d4`*oq6cRo-XZ!mv=dB6rU$9*-AD`mI6R0gU=pw%p@HqaAsh6BQiq(F#1!gAd
zlDrz*;V~S5ahGj2OvIOocjHmaz7leBnv1l5+w_UQYQKhm!f6z2&3|n4*8AN?^UJ8S
z;UiptN!M(tE=Jva<hqT8*0_jp5w5_7e>j<d`>_Dqmf3VJ330KNgzKn-Z_}T)0Cm4%
zeYzPRBfZ{DC(qzg?22*X$$lJ;bFrE8{FQV&_8|5=PgY_td=anU7My*H=O6Vl%6Y<Y
z;`~QPbm1bcf+v-5`fZ-X;hc(|?Bj*PN}g=MyuWz<ejXp@`M(Xf;-934-R}AGz0w_?
zU&9VKn)Kqpy5XKb`WN7><oi1g;{MIbp48A@9TegDe-KQo;`x2uE7J2%u?JBLurA7z
zio7_vs^_1ApXTR_4$fzyJ^2{>#CUQRqwe(l!7H(z>><91TEIPVo*c(r)jj`UvohZE
ze+_?y^>tLm)bRY3>TYbqgJVz^j`diM5BIC-Nj=Q2g`|gSd;T_Bh))oIgSD|=9nFya
zA1mWZjK(6Yj{8to#8a4rRqA?@rlUH8i^iCT&+?(=sM~Ksg6IF~)CUuZS7Sfik9T36
zM9<&F2BB`>vvC}*Lml<ildQm#P(Qc~HQ$}61-gWxnq1tTY&A&1s>JuBZa%|N&w?|s
z32qJU|BRYp8ES_0>f3w0QFpmVf_Mg2Azp&oa%)k~hNY<aS8CveWGFRGY+y}4x1r}B
zq4uIaa22&_BN{PSusLdaZ`6~_Sj@uJcrSjBZ80Uq;xVZ2zlZw%G1LlOLp>X&G!A+G
zwwu$~9xOmTC~QD&>d$cqCZ*bk=b+ZG5R-8SYSaIWLolp~=TFZuSVUZm4RI8|<C@`O
z)Pu~YxB^|MnJ449ScSSUL^b#P1IP;8PFx|)lcl%|`{UqrPyT~jQ46xZg*EMNyg+;g
zTj9}`p1(3yY32EQLI~TDUg0j!U;De@r^KOET&(5d(G1HdI@3y+g|Cr55m#YEmKAIZ
zb|Q{zZGAr!wMkz<?TTGNx@+V4|AeNZF3HnS$IK?wv2+A^J|q>}TAy`7ec;)^x3MGf
zVbs2^-p(@Y6Zi&d-=0N%@Amdqko3TjsAJ)E)PkMBz8HJArRQOs&i{>Ebl^q_>L96n
zk0+d>Bo)(%Pj#^A65r7Zkbye=o(=pMbz8lT`l0mBp8xmU1k{%K9(9&f>tYq^fQ^Ws
z!{&Tnin-7X&!SGhgs%3XOw<hXgLoI}^r?KWtzg|y@6ShlzXY|V%6GHDnT0wyhocst
z0JT8dP#3!M7}ASI-E9FHjhewSY>l5|EHw+ik0!<jJ#0zteZS`)rQ&;9feKLP_a4;E
z=`7a9^j@BPiT&|MY}A`Q03-U?rWMnN`L9i}iUeIMOHrrEDdfx`v3;#6y$3vbnRo(z
z&HV}kJpWXD5_NYAAL#jq%ayo;I4#@r&ytt%67jePJ=ux5gFOFlyn2JJAR7lWO|(Ss
zlCT<g;4S#@LzX@waBScttib&zH&;wLd@d{@`O)05BPQjJ7+(LeCBH<v8h0clj~PB}
vWNyyHC&rPM9~tF}Bcr@g5fT6UXi}{o-`lX{odhp3Jn8>mC|;l79c=Yq$j}<e

delta 6544
zcmY+|dti=bAHeb7bw`e&+02|~vsr9o%`&H$Sk|12IW>kxP9>JTVxBaGgmOp;O%x^O
zkWe~MnbYf3jvZ9w6-qidm-qX-f6pK9``73GUH5%o_jSIm=b7?Rxtm+dtu0k45GNx0
zt2$|bSFj&Og*s`E1$Yl`$7H;U12I0#o|}pK-p|++t5$PzH)f*dI}!E%a%_nEFcPm}
zU5p5K0qMj=i*P3yI2HBA0n`s(!sZxL-AQ%qk5QP9HStvp!;RPo_h1vej&-q7gp(ys
zq${>1{<Ve`G^wT)Y-r7ZlO%4uL_&Ss9`tAIPF$sy^9wi#H7>@k=xRI3#O_!N7oont
z1v}#Rn1Ts)oFw2ttb?;qTV^$C#SaI#=)pyFq-Btg(ZowoGuVb&z{{9}adn-v#A*04
zevXOQFUq=XI;Iov!z~yZ?PRLPxD>PMIT?>vF_o4HjEQlworHH{ofP1x`c5iy<2-7K
zZ^T)X*SO0`Dbib^*1T;4C;9jS&c#v<o!pDBU>7`s=P)+j$ziOLVELRutzg+iCmZ>`
z#B;HpgdZ>m=QVPYhJT^9K-0!f+TjRni^bR)FJW&?O0p)Nj+*{{F#Zd*pwV|b>4l?E
z2lE%G`QE^6zAs71PCAn?3wz=>*cX$VIJpaFq7JI}u??QXG;EmS<bE819dJGB?75EG
z5?S}yAe)EXh(8X-m76-bMN2lvR(xNYH?z?`4(}s=8?`1Eg2p#z(D1@=)B?<D;pA~V
zggQ;{YiR|UirOOkP-jD2E2~%*YQD=c9RCwczl8zqtIqdYpDjYI(Rs|m<kl8X4|)Jw
zksjX0TBZla5*MI0=`z#;9YY=6wbQHs!%^>VMs3MoP`fm$E%QHzn&q~2@*wWG&&efj
zM6`GEJXT1z3|~h5(AU@u-Th8tumv8&0r&?t>)@n3CS*97jj5;~E<v59H&I(A;sGZ&
z`Ci5Y0Vjndq<3_(n1o&UJ@L@awvuIZaq<rFQ>X=s?doJFuEmKszMB)rdzbMD@zw55
zR^fhXQyM2c<m7gojC*ieFz(UANg3jPf#AhpEK9<OV4R23$ao^^(poyp)`wO>2V*_b
zpGO_lYfu-O(-@6+_OcdAL0yvjpw@f_R`WzYz_G-EgMDnYr}worx(MUAu_qY+fx6Jt
z>F4An+=w%=!^0Ga0v<+f;+xs_fxG)#oP+w|`KWt92{yz_sAHhk04HDQ{O`tv_Ej|o
zLUnu#L+}&SK0SmwCUy*Tawi|$JctE~c=uo%j3+RPIQ$V?u$rTOs5feQA?gR;L~ViN
zs9jPvR|hfkuQC^JkkAa5&@^A8KJe6|PAcMLY=N^-TV@yP{Y$6?y^7lO6^7Y|o8fcB
zgHbDV4hP_E!<~3kU@%T09x}qo6`lX*xzG$xjdW52&jl?#iYBB$bx{Y|gOBqZ_89Ht
zDeU)zlY=~eWQ>#FaphPiC-AjA+Y`n;$yngI<#?3zl5w`nzMk*oB=K1c=t{TqU+l{~
zSZ};Fc{_5?B|UY5_5EVhZ8&A3EhLYj#_Ld<`aJ4(T&=)9oQ!+PF9)^75}9S%0zGjp
z=^Jr74w=mSkL994p%cc1be-a)2-iGIpJ_Z**J%21nyq|4psoW^)17>V9Z)||;d$$#
zCa48_48wSTC04|bXV}=;^MaF~x&Q4<CzVJqnMFyeb8%$0lg4=QMf+gn9P9f6)cO8A
zGGpYSxfZXQXVWZizHKfGPzTvXr0i1fWt+BdF9@Co@O#n|Ua@I>$3k1kQUYA`=fzQ|
zo6ug=rL)FsR+FKqo6=I$roMu@0!A;gn)gFpN((U=OHfDob&SUbi|zc-6Lk}M4!ht{
z)b9oAFR>T$P!Af*P;2rPw#BlqTR}3hKJgUP53NFd{yWqHRi@u`5N4pxmX=GMEWmO2
zELM8M(&wS>A^VZ{0#b3AWsr_h+?a$~qaxIroJO5qRhL`A(op+24|Qc+gSrC#gqm^9
zH?8KqQ5T>on27IVG@eEsLuK9y&i_O%B1y<Xt;sml?Y9_piTyQb$O=2EHO1+q&p=)I
z!dBXDn2B1@v8YX7gxY0$Q7d#MXv??l2p7OcI{!c9LPzmA)Lkv)9h;}AsD1P_Y7O?`
z{dg0#i`uQSF3Cr&(Gt}6KgU%3IcU_o7WYAIv6oOQyb}Z3BxkwM3@WU)jPFMMU@o@D
zxv0+_L(TXG>KJIU#`<&!YKBWuyJ8z^S6&GkQEYKb)V&}Zbu3LSX8xyhv4(`k_$TTL
z7{e-|54H(94E4ivQOCrdVET2eOB}P#OvgIJLr@F+ENWM*MD5D2P`l(R>d~&=`hYck
zr}a*1laPl)a1Lq)*HAO4wZUqdfm*{t48tv09rvTQ)LGP)Nqo;fl!IE}8K}>FfSTWz
zSPgFlxX{sDZKK`jhI(Tn>XJGawPlJ?GdhWRSm}K`=NIA>;$2vRT{bych}AaRd|!uy
zh`lXNMq@5MiAS&i1D!sw^ZRZbM?(J(ZOuQ7x-gC0>SQSHK^?_SKC-i6KCU9(hq_=r
z^|6ha64VO)h1%4OKe5AVUz|g{8~b4Pr@{HZ$u8tK)Dkt=<|NdKtU%rOw{ADreCA|7
zana{i;L%^$(pzeWlVzkojIZ*ZlsLHn3wJtMiBoqunT1Kaos7ay@H<T0!)ciDCl&WP
zxky6Hzn#2>q5BvMWV9C767SpZWH|;7IN7Gp9pwCuXHc8^%poht<S%XSIF9+Gr+#H;
z#A1AuIN`9Jpyp!^aoiCntNFf6<3elJ^r)5e_G3<piRa^En10-r()VyUai<e@WZQ%T
zh(o@%z8!;8iBAO`@r{#V#DAcUne1;F#8m7MY8TvblKH=hi=kZ1#mMiS{DT|t0IvUm
zUpBl@_@n*8*>lSO%_db(GaX6ag)@21ov~eRHclq~8nwx@|6@PFF5nj8)U!_Lez}CD
zJ<bp3X#YeKHeIm&{ik2731fe?U9S))@#1mRmg;?x-wAjO&tUv-PDWzLC0k$us7vxv
zOv5AC8^eFM*)SUC5pToenDs}%$yqLv{<P^6@t6G?{sAXYu;rI+^wzy<qxnVD+3+FG
z#(LLmsosFP`P{@_*!;Sa`S=nRVcZQTV{j+Vz?L^{I+p~v*hs=<)WP@e-?ji{{9}Du
zjAKc!d&|i)I1eAdaPed>4#er$$a(%sx*59=|AR}hv*-E8_KWx)@#Nb)|ESlrlqU=)
z31ra`8C)cl@uWPCFY8H7oKnt{-Mmm#-jmfhqJrn|=Mfb>|F_{f{G0T$cX<AMzrB*@
z*Dwu7kiH>kWM$7E{WI`(^8FJZ=KhT;p48D^?R}@`|3Q!+;`x2uxvJ-%V)vpJU`41W
z<#=&SnCG8@C-U<}2j`@4Pd>%2)jc_nRU$lp@ZQ87#5ZbK0k_xm<Qw8oYkB^zxwy9H
z{~A7s4Rln6*75w6sx`Le!C|Ni$4V^4hr3655`$TFk@N{sp1+M2;dtVs7=_)VHAD7)
ztb&U%9M@ni+=03xp29e+RL_$X9o0>_XoMs1IX<)yb^DEq_544Zx}tvgb?k|sV{@!g
z-}85|9;n-Q0glFHsG~kK&fXh^`oTG<`F?;}ptBf=<f8OlR)bg!Bkq8@`DCLWG{$2R
zt`6S+4mHC+Q8TR7z~0M5-Q{wE@pud&o{d_8H&D-pC8+s(4ZVO2qQ-R^TGLOC_xvN&
zr>GD7g4(p@5*REPkD8u|dXgD}t#C1B;t6bnv56MvqQ1Wt_5DMr6}p6aHjHf)@cjL_
zS0j6{5cQz&CTdgf!W@ijY#)9awT6rEF5HOP^xt6)mP+#c>6we`iHk8F2k|>D8E0WC
zZo?wH7U1FuE*2(x{=!hPiRT|cUcs%T-@;dLYl`PDEIse><TCMU)PgK;YEAnQ{!08K
zHp7Fdp1(4dZ|3=XLO!OEehd3xT60f!VPGK_?{M)*3(Kf-ODkatE+Ty-zJcXhS;5}L
z`-!XGYkl7rwMnO;cE#3U`ZerG9M_srj$={B%u3X;bO3oiAg+z|S!>h>CIx*9(~0+?
z_H}5QW!N$30@S`eh5BCUwpNhDpaW6I!hF<%9mXCQa-XFS#hN<*S8&mu8=s*LlCteQ
z;S?otcn|T(_BLI@(yai=sMBv!(9NjZ>hGu@O6=hIf6om^ZJ86Ov!qgnRj3sv5I=)W
z_`Vc#p&6b+oqn|+un#ps%`gy*x1vs;vYEDmwL`uC9P0a@p|;fDsDm@5qYch%)B+Tu
z7HA#nLiZB}^dhE{EkJ`&Gnj+-;x4Q~&B}D9i7~p1Ey<Z(J^v^b*3Al3h&sPNM%|oF
zVH75I_v9<=il;H=LG}PF_mFK`RUTsgYf~&FL6^!B)M;`OIWtH|4{OTnJw2I6JUq+u
z|H-)3%kxjgM|<1uR;G{VA1+_Tk9a?!ujij7&*5*xkM{FqJN9|l^Z&-Hm2CxCk<B#G
z60ITOP27mLVZZ*CJ|O6jprf!1_wzQCi#u|m{DhGM9~=7Qz@fPX3(i+{bt+C6mHWuB
mfdlf!kIpTa8XoF4g@<~>@BH7#X2yCE|M%FY_hP*R&Hf8l{TJN;

diff --git a/httplint/translations/zh/LC_MESSAGES/messages.po b/httplint/translations/zh/LC_MESSAGES/messages.po
index 67d353d..b16b041 100644
--- a/httplint/translations/zh/LC_MESSAGES/messages.po
+++ b/httplint/translations/zh/LC_MESSAGES/messages.po
@@ -1999,9 +1999,9 @@ msgstr ""
 "editor.org/rfc/rfc9110.html#name-obsolete-date-formats)。"
 
 #: httplint/field/parsers/accept.py:71
-#, python-brace-format
-msgid "The q value on '{media_type}' is invalid."
-msgstr "'{media_type}' 上的 q 值无效。"
+#, python-format
+msgid "The q value on '%(media_type)s' is invalid."
+msgstr "'%(media_type)s' 上的 q 值无效。"
 
 #: httplint/field/parsers/accept.py:72
 #: httplint/field/parsers/accept_language.py:69
@@ -2076,12 +2076,12 @@ msgstr ""
 "请参阅 [其定义](%(ref_uri)s) 以获取更多信息。"
 
 #: httplint/field/parsers/accept_language.py:68
-#, python-brace-format
-msgid "The q value on '{language}' is invalid."
+#, python-format
+msgid "The q value on '%(language)s' is invalid."
 msgstr ""
 "语言代码 'zh' 翻译：\n"
 "\n"
-"该语言代码 '{language}' 中的 q 值无效。"
+"该语言代码 '%(language)s' 中的 q 值无效。"
 
 #: httplint/field/parsers/accept_language.py:76
 msgid "The Accept-Language header isn't valid."
-- 
2.43.0


From 63b5c2a0de43707329841df6ee9726066cafc6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 58/67] fix: catch what unusual codecs raise

---
 httplint/charset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index bba33ad..5e1878b 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -84,7 +84,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         decodes = False
 
     detection = chardet.detect(sample)
@@ -134,7 +134,7 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     try:
         declared_text = sample.decode(declared, errors="strict")
         detected_text = sample.decode(detected, errors="strict")
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return False
     return declared_text == detected_text
 
-- 
2.43.0


From 6a191edb03bfa70b752580775eb79bbab6c2cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:28 +0000
Subject: [PATCH 59/67] fix: a sample may end in the middle of a character

---
 httplint/charset.py | 15 +++++++++++++++
 httplint/types.py   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/httplint/charset.py b/httplint/charset.py
index 5e1878b..6f37c23 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -12,6 +12,9 @@ from httplint.types import LinterProtocol
 # different name still decodes to the same text.
 CHARDET_CONFIDENCE_THRESHOLD = 0.5
 
+# The longest representation of a character in any encoding.
+MAX_CHARACTER_BYTES = 4
+
 
 def _requires_utf8(media_type: str) -> bool:
     """
@@ -84,6 +87,13 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
+    except UnicodeDecodeError as why:
+        # The end of a partial sample might be in the middle of a character.
+        if _is_partial(linter) and 0 < len(sample) - why.start < MAX_CHARACTER_BYTES:
+            sample = sample[: why.start]
+            decodes = True
+        else:
+            decodes = False
     except (UnicodeError, LookupError):
         decodes = False
 
@@ -124,6 +134,11 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
 
 
+def _is_partial(linter: LinterProtocol) -> bool:
+    "True if the content continues after the sample."
+    return not linter.complete or linter.decoded.length > len(linter.content_sample)
+
+
 def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     """
     Return True if decoding `sample` with `declared` and with `detected`
diff --git a/httplint/types.py b/httplint/types.py
index ea86437..1bd36a8 100644
--- a/httplint/types.py
+++ b/httplint/types.py
@@ -99,6 +99,7 @@ class LinterProtocol(Protocol):
     content_length: int
     content_hash: Optional[bytes]
     content_sample: bytes
+    decoded: Any  # Avoiding circularity with ContentEncodingProcessor
     complete: bool
 
     @property
-- 
2.43.0


From fcb326c14a42e769d79fdef473700a9fdf598349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:53 +0000
Subject: [PATCH 60/67] fix: don't judge content that can't be decoded

---
 httplint/charset.py          | 4 ++++
 httplint/content_encoding.py | 6 ++++--
 httplint/content_type.py     | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 6f37c23..c354382 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -43,6 +43,10 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     if not linter.content_hash or not linter.content_sample:
         return
 
+    # Content that can't be decoded can't be verified.
+    if not linter.decoded.decode_ok:
+        return
+
     status_code = getattr(linter, "status_code", None)
     if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index d36eed9..a9ef2c6 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -59,8 +59,10 @@ class ContentEncodingProcessor:
                 self.pipeline = GzipProcessor(self.message, self.pipeline)
             elif coding == "br":
                 self.pipeline = BrotliProcessor(self.message, self.pipeline)
-            else:
-                pass
+            elif coding != "identity":
+                self.decode_ok = False
+                self.pipeline = None
+                return
 
     def _sink_process(self, chunk: bytes) -> None:
         self._hash_processor.update(chunk)
diff --git a/httplint/content_type.py b/httplint/content_type.py
index 740fd0e..8fba2cf 100644
--- a/httplint/content_type.py
+++ b/httplint/content_type.py
@@ -20,6 +20,10 @@ def verify_content_type(linter: LinterProtocol) -> None:
     if not linter.content_hash:
         return
 
+    # Content that can't be decoded can't be verified.
+    if not linter.decoded.decode_ok:
+        return
+
     # Don't verify content type for responses that don't carry a full representation
     status_code = getattr(linter, "status_code", None)
     if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
-- 
2.43.0


From 840db3fdc3e39e1e556558610091e4eb07766c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 61/67] fix: content that couldn't be decoded isn't OK

---
 httplint/content_encoding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index a9ef2c6..852669c 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -107,6 +107,7 @@ class GzipProcessor:
                     gzip_error=str(gzip_error),
                 )
                 self.ok = False
+                self.message.decoded.decode_ok = False
                 self._gzip_header_buffer = b""
                 return
 
@@ -147,6 +148,7 @@ class GzipProcessor:
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
+            self.message.decoded.decode_ok = False
 
     @staticmethod
     def _read_gzip_header(content: bytes) -> bytes:
@@ -239,6 +241,7 @@ class BrotliProcessor:
                 chunk_sample=display_bytes(chunk),
             )
             self.ok = False
+            self.message.decoded.decode_ok = False
 
 
 class DECOMPRESSION_LIMIT(Note):
-- 
2.43.0


From daf79c004b0ab78263632f99e49f12c37fa02d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:37 +0000
Subject: [PATCH 62/67] fix: look for both path characters in both filenames

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 1760a57..eed5866 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -39,7 +39,7 @@ the file, rather than display it."""
         filename_star = param_dict.get("filename*", None)
         if filename and "%" in filename:
             add_note(DISPOSITION_FILENAME_PERCENT)
-        if (filename and "/" in filename) or (filename_star and r"\\" in filename_star):
+        if any(char in name for name in (filename, filename_star) if name for char in "/\\"):
             add_note(DISPOSITION_FILENAME_PATH_CHAR)
         return disposition, param_dict
 
-- 
2.43.0


From f37e69bfc9b08853e9340f00a048586d6eed04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:57 +0000
Subject: [PATCH 63/67] fix: -i takes the input mode

---
 httplint/cli/http_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cli/http_parser.py b/httplint/cli/http_parser.py
index e9bbb5e..67ce06c 100644
--- a/httplint/cli/http_parser.py
+++ b/httplint/cli/http_parser.py
@@ -22,7 +22,7 @@ class HttpCliParser(HttpMessageHandler):
 
     def __init__(self, args: Namespace, start_time: Optional[float] = None) -> None:
         self.start_time = start_time
-        self.mode = args.mode
+        self.mode = modes(args.mode)
         self.linter: HttpMessageLinter
         HttpMessageHandler.__init__(self)
 
-- 
2.43.0


From 6219e77345775d49f6d58d6d4757d4ec688e786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:13 +0000
Subject: [PATCH 64/67] fix: a status code is made of digits

---
 httplint/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/message.py b/httplint/message.py
index 4a41e48..7902c6b 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -287,6 +287,8 @@ class HttpResponseLinter(HttpMessageLinter):
         self.version = version.decode("ascii", "replace")
         self.status_code_str = status_code.decode("ascii", "replace")
         try:
+            if not self.status_code_str.isdigit():
+                raise ValueError
             self.status_code = int(self.status_code_str)
         except ValueError:
             self.notes.add("status", STATUS_CODE_NON_NUMERIC)
-- 
2.43.0


From 5500f345f5736346e134e44a5891a3e2ff223a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:34 +0000
Subject: [PATCH 65/67] fix: q values have no sign or exponent

---
 httplint/field/parsers/accept.py          | 3 ++-
 httplint/field/parsers/accept_language.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/accept.py b/httplint/field/parsers/accept.py
index 0401403..bb517ca 100644
--- a/httplint/field/parsers/accept.py
+++ b/httplint/field/parsers/accept.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
@@ -48,7 +49,7 @@ acceptable in responses."""
                 q_str = param_dict.pop("q")
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:  # 0.123
+                if not re.fullmatch(rfc9110.qvalue, q_str, re.VERBOSE):
                     raise ValueError
                 q_val = float(q_str)
                 if not 0.0 <= q_val <= 1.0:
diff --git a/httplint/field/parsers/accept_language.py b/httplint/field/parsers/accept_language.py
index c8e5553..c7f12e3 100644
--- a/httplint/field/parsers/accept_language.py
+++ b/httplint/field/parsers/accept_language.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
@@ -45,7 +46,7 @@ preferred in the response."""
             try:
                 if q_str is None:
                     raise ValueError
-                if len(q_str) > 5:
+                if not re.fullmatch(rfc9110.qvalue, q_str, re.VERBOSE):
                     raise ValueError
                 q_val = float(q_str)
                 if not 0.0 <= q_val <= 1.0:
-- 
2.43.0


From f37f29bd2e0eeb2bdc53e48dad2c7dfa8851bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:39 +0000
Subject: [PATCH 66/67] fix: seconds in Cache-Control are made of digits

---
 httplint/field/parsers/cache_control.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 4dea403..f3736cf 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any, Callable, Dict, List, Tuple, Union
 
 from httplint.field.list_field import HttpListField
@@ -116,6 +117,8 @@ ignoring it there."""
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
             else:
                 try:
+                    if value_func is int and not re.fullmatch(r"[0-9]+", directive_val or ""):
+                        raise ValueError
                     val = value_func(directive_val)
                     if isinstance(val, int) and val > 2147483648:
                         add_note(CC_MAX_AGE_TOO_LARGE, directive=directive_name)
-- 
2.43.0


From 34ac28cc64e34053b16f26c73b5e9b8bbb751543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:45 +0000
Subject: [PATCH 67/67] fix: the value of max-stale is optional

---
 httplint/field/parsers/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index f3736cf..2404d06 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -115,7 +115,7 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
-            else:
+            elif directive_val is not None or directive_name != "max-stale":
                 try:
                     if value_func is int and not re.fullmatch(r"[0-9]+", directive_val or ""):
                         raise ValueError
-- 
2.43.0

