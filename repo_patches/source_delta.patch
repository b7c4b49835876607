From 86562c031fda5388e8816834cd8303b2f8880bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 01/79] fix: bsdconv_unpack() wrote one pointer past its phase
 offset array

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..5e170d3 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2]; // the strsep() loop below stores its final NULL, too
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From cbdbdcf46c409ccdab52000c29d5d4ed90167ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 02/79] fix: _UTF-8 decoder completed a new sequence with the
 state of an aborted one

---
 modules/from/_UTF-8.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..791e96a 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -164,6 +164,12 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	unsigned char d;
 
+	if(!(this_phase->flags & F_LOOPBACK)){ // new sequence, drop what an aborted one left
+		t->status = 0;
+		t->lead_surrogate.ucs4 = 0;
+		t->ucs.ucs4 = 0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
-- 
2.43.0


From 69ca37662df12c581536058da0c7cc61c4c7d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 03/79] fix: _UTF-8 decoder accepted code points over U+10FFFF
 without SUPER

---
 modules/from/_UTF-8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 791e96a..4735595 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -64,6 +64,9 @@ void cbdestroy(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
 	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	if(ucs > 0x10FFFF && !t->super){	\
+		DEADEND();	\
+	}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
-- 
2.43.0


From babf3c122dfb45a2a039b4c694b929eb690bfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 04/79] fix: _UTF-8#CESU lost plane bits of surrogate pairs
 beyond plane 1

---
 modules/from/_UTF-8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 4735595..3281a14 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -93,8 +93,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
-				cp |= (ucs - 0xDC00) & bb1111111111;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
 				t->lead_surrogate.ucs4 = 0;	\
-- 
2.43.0


From 2a5c789c9ead006b23eaaabab59bbdd9c53e11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 05/79] fix: _UTF-8#CESU&LOOSE dropped a held lead surrogate
 and its following bytes

---
 modules/from/_UTF-8.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 3281a14..5d6b6d0 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -54,7 +54,6 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 #define DEADEND() do{	\
 	t->status = 0;	\
-	t->lead_surrogate.ucs4 = 0;	\
 	t->ucs.ucs4 = 0;	\
 	this_phase->state.status=DEADEND;	\
 	return;	\
@@ -154,11 +153,18 @@ void cbdestroy(struct bsdconv_instance *ins){
 }while(0)
 
 void cbflush(struct bsdconv_instance *ins){
+	struct data_rt *data_ptr;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	if(t->lead_surrogate.ucs4 && t->loose){
 		PASS(t->lead_surrogate);
 		t->lead_surrogate.ucs4 = 0;
+
+		// resume after the surrogate
+		LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+		this_phase->curr=prev_phase->data_head;
+		this_phase->i=this_phase->data_head->len;
 	}
 }
 
-- 
2.43.0


From 17a969c64788635e817ee5f84d0703d733aec795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 06/79] fix: UTF-16BE decoder left the flags of surrogate pair
 data uninitialized

---
 modules/from/UTF-16BE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..81e871f 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -87,6 +87,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
-- 
2.43.0


From 773ced535f1a2c2e35b045c54eb2e222c0e2e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 07/79] fix: UTF-16 and UTF-32 decoders mapped NUL to an empty
 code point

---
 modules/from/UTF-16BE.c | 2 +-
 modules/from/UTF-16LE.c | 2 +-
 modules/from/UTF-32BE.c | 2 +-
 modules/from/UTF-32LE.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 81e871f..d4da178 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -47,7 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..4c547a9 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..610bcfc 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..99fa6b9 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
-- 
2.43.0


From f3a54483e3493fc1432b19048a3fb6b6c1c75a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 08/79] fix: UTF-16 and UTF-32 decoders completed a new
 sequence with the state of an aborted one

---
 modules/from/UTF-16BE.c | 3 +++
 modules/from/UTF-16LE.c | 3 +++
 modules/from/UTF-32BE.c | 3 +++
 modules/from/UTF-32LE.c | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index d4da178..8360dd8 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -30,6 +30,9 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	size_t l;
 
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 4c547a9..ef0d47a 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -29,6 +29,9 @@ void cbconv(struct bsdconv_instance *ins){
 	char d, buf[3]={0};
 	int i;
 	size_t l;
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 610bcfc..5a28119 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -30,6 +30,9 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	size_t l;
 
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index 99fa6b9..2530789 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -30,6 +30,9 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	size_t l;
 
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
-- 
2.43.0


From a7986da08d28c7e6cb3bdf351cda198582c1fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 09/79] fix: codec lookup lost the enclosing subroutine when a
 longer explicit match failed

In INTER and TO phases a subroutine entry such as 01* with more specific
entries below it (0100, 0101, ...) either dead-ended or matched the shorter
entry in the middle of a datum, e.g. U+010000 was written as U+0100.
---
 src/libbsdconv.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 5e170d3..9631226 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -599,6 +599,7 @@ void bsdconv(struct bsdconv_instance *ins){
 	FILE *fp;
 	int fd;
 	unsigned char c;
+	offset_t loopback;
 	struct bsdconv_phase *prev_phase;
 	struct bsdconv_phase *this_phase;
 	struct bsdconv_codec *this_codec;
@@ -730,12 +731,17 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				loopback=this_phase->offset;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
 					if(next){
 						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
+					}else if(this_phase->flags & F_LOOPBACK){
+						this_phase->offset=loopback;
+						this_phase->state=read_state(this_codec, loopback);
+						break;
+					}else{
 						this_phase->offset=0;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
@@ -746,6 +752,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							loopback=this_phase->offset;
 							break;
 					}
 				}
@@ -863,12 +870,17 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				loopback=this_phase->offset;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
 					if(next){
 						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
+					}else if(this_phase->flags & F_LOOPBACK){
+						this_phase->offset=loopback;
+						this_phase->state=read_state(this_codec, loopback);
+						break;
+					}else{
 						this_phase->offset=0;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
@@ -879,6 +891,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							loopback=this_phase->offset;
 							break;
 					}
 				}
-- 
2.43.0


From ebf5a8cb3f990fbee1c7af94435e3e81441ce7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 10/79] fix: _GB18030 encoder could not write most of the
 four-byte BMP area

Entries U+0080..U+00FF hide 01* for every code point sharing their first byte.
---
 modules/to/_GB18030.txt | 128 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 128 insertions(+)

diff --git a/modules/to/_GB18030.txt b/modules/to/_GB18030.txt
index 7d7001b..ec59f9b 100644
--- a/modules/to/_GB18030.txt
+++ b/modules/to/_GB18030.txt
@@ -1,4 +1,132 @@
 01*	?
+0180*	?
+0181*	?
+0182*	?
+0183*	?
+0184*	?
+0185*	?
+0186*	?
+0187*	?
+0188*	?
+0189*	?
+018A*	?
+018B*	?
+018C*	?
+018D*	?
+018E*	?
+018F*	?
+0190*	?
+0191*	?
+0192*	?
+0193*	?
+0194*	?
+0195*	?
+0196*	?
+0197*	?
+0198*	?
+0199*	?
+019A*	?
+019B*	?
+019C*	?
+019D*	?
+019E*	?
+019F*	?
+01A0*	?
+01A1*	?
+01A2*	?
+01A3*	?
+01A4*	?
+01A5*	?
+01A6*	?
+01A7*	?
+01A8*	?
+01A9*	?
+01AA*	?
+01AB*	?
+01AC*	?
+01AD*	?
+01AE*	?
+01AF*	?
+01B0*	?
+01B1*	?
+01B2*	?
+01B3*	?
+01B4*	?
+01B5*	?
+01B6*	?
+01B7*	?
+01B8*	?
+01B9*	?
+01BA*	?
+01BB*	?
+01BC*	?
+01BD*	?
+01BE*	?
+01BF*	?
+01C0*	?
+01C1*	?
+01C2*	?
+01C3*	?
+01C4*	?
+01C5*	?
+01C6*	?
+01C7*	?
+01C8*	?
+01C9*	?
+01CA*	?
+01CB*	?
+01CC*	?
+01CD*	?
+01CE*	?
+01CF*	?
+01D0*	?
+01D1*	?
+01D2*	?
+01D3*	?
+01D4*	?
+01D5*	?
+01D6*	?
+01D7*	?
+01D8*	?
+01D9*	?
+01DA*	?
+01DB*	?
+01DC*	?
+01DD*	?
+01DE*	?
+01DF*	?
+01E0*	?
+01E1*	?
+01E2*	?
+01E3*	?
+01E4*	?
+01E5*	?
+01E6*	?
+01E7*	?
+01E8*	?
+01E9*	?
+01EA*	?
+01EB*	?
+01EC*	?
+01ED*	?
+01EE*	?
+01EF*	?
+01F0*	?
+01F1*	?
+01F2*	?
+01F3*	?
+01F4*	?
+01F5*	?
+01F6*	?
+01F7*	?
+01F8*	?
+01F9*	?
+01FA*	?
+01FB*	?
+01FC*	?
+01FD*	?
+01FE*	?
+01FF*	?
 010100	81308B38
 010101	A8A1
 010102	81308B39
-- 
2.43.0


From b036d4f843c91d630e5b648c63ab4fa9a608364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 11/79] fix: _GB18030 decoder ignored its table for four-byte
 sequences

The routine swallowed the rest of the chunk before the table was consulted,
accepted out-of-range trail bytes, kept the state of an aborted sequence, and
the lead bytes D9 and 8235, 8237..8239 were wrong or missing in the table.
---
 modules/from/_GB18030.c   | 128 +++++++++++++++-----------------------
 modules/from/_GB18030.txt |   6 +-
 2 files changed, 54 insertions(+), 80 deletions(-)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..b6a5ab4 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -69,87 +69,57 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	ucs_t ucs;
 
-	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
-		d=UCP(this_phase->curr->data)[this_phase->i];
+	d=UCP(this_phase->curr->data)[this_phase->i];
+
+	//new sequence, bytes matched by the table are still in the state data
+	if(!(this_phase->flags & F_LOOPBACK)){
 		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 		c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
-		next:
-		switch(t->status){
-			case 0:
-				if(t->status<data.len){
-					t->ucs=c[0]*10;
-					t->status=1;
-					goto next;
-				}
-				t->ucs=d*10;
-				t->status=1;
-				break;
-			case 1:
-				if(t->status<data.len){
-					t->ucs+=c[1];
-					t->ucs*=126;
-					t->status=2;
-					goto next;
-				}
-				t->ucs+=d;
-				t->ucs*=126;
-				t->status=2;
-				break;
-			case 2:
-				if(t->status<data.len){
-					t->ucs+=c[2];
-					t->ucs*=10;
-					t->status=3;
-					goto next;
-				}
-				t->ucs+=d;
-				t->ucs*=10;
-				t->status=3;
-				break;
-			case 3:
-				if(t->status<data.len){
-					t->ucs+=c[3];
-					t->status=0;
-					goto next;
-				}
-				t->ucs+=d;
-				t->status=0;
-				if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-					DEADEND();
-				}else while (max >= min) {
-					mid = (min + max) / 2;
-					if (t->ucs > gb18030_table[mid].end)
-						min = mid + 1;
-					else if (t->ucs < gb18030_table[mid].beg)
-						max = mid - 1;
-					else{
-						break;
-					}
-				}
-				if(gb18030_table[mid].beg<=t->ucs && t->ucs<=gb18030_table[mid].end){
-					ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
-					for(i=0;ucs.byte[i]==0 && i<4;++i);
-					DATA_MALLOC(ins, this_phase->data_tail->next);
-					this_phase->data_tail=this_phase->data_tail->next;
-					this_phase->data_tail->next=NULL;
-					this_phase->data_tail->len=5 - i;
-					this_phase->data_tail->data=c=malloc(5 - i);
-					this_phase->data_tail->flags=F_FREE;
-					this_phase->state.status=NEXTPHASE;
-					*c=0x01;
-					c+=1;
-					for(;i<4;++i,c+=1){
-						*c=ucs.byte[i];
-					}
-					return;
-				}else{
-					DEADEND();
-				}
-				break;
-			default:
-				DEADEND();
+		t->ucs=0;
+		for(t->status=0;t->status<data.len;t->status+=1){
+			t->ucs=t->ucs*((t->status & 1)?10:126)+c[t->status];
+		}
+	}
+
+	if(t->status & 1){
+		if(d<0x30 || d>0x39){
+			DEADEND();
+		}
+	}else if(d<0x81 || d>0xFE){
+		DEADEND();
+	}
+	t->ucs=t->ucs*((t->status & 1)?10:126)+d;
+	t->status+=1;
+	if(t->status<4){
+		//the next byte could be matched by the table
+		this_phase->state.status=CONTINUE;
+		return;
+	}
+	t->status=0;
+
+	while (max >= min) {
+		mid = (min + max) / 2;
+		if (t->ucs > gb18030_table[mid].end)
+			min = mid + 1;
+		else if (t->ucs < gb18030_table[mid].beg)
+			max = mid - 1;
+		else{
+			ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
+			for(i=0;ucs.byte[i]==0;++i);
+			DATA_MALLOC(ins, this_phase->data_tail->next);
+			this_phase->data_tail=this_phase->data_tail->next;
+			this_phase->data_tail->next=NULL;
+			this_phase->data_tail->len=5 - i;
+			this_phase->data_tail->data=c=malloc(5 - i);
+			this_phase->data_tail->flags=F_FREE;
+			this_phase->state.status=NEXTPHASE;
+			*c=0x01;
+			c+=1;
+			for(;i<4;++i,c+=1){
+				*c=ucs.byte[i];
+			}
+			return;
 		}
 	}
-	this_phase->state.status=CONTINUE;
-	return;
+	DEADEND();
 }
diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 41077d3..90c5315 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -6406,11 +6406,15 @@
 82358E37	014DFA
 82358E38	014DFB
 82358E39	014DFC
+8235*		?8235
 82358F*		?82358F
 82358F30	014DFD
 82358F31	014DFE
 82358F32	014DFF
 8236*		?8236
+8237*		?8237
+8238*		?8238
+8239*		?8239
 8240	014FA4
 8241	014FAB
 8242	014FAD
@@ -23628,7 +23632,7 @@ D8FB	014F67
 D8FC	016538
 D8FD	014F5A
 D8FE	014F5D
-D9*	?D0
+D9*	?D9
 D940	018CAE
 D941	018CAF
 D942	018CB0
-- 
2.43.0


From 73f9e88b412702a4bc24353ed0e627a2f0251f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 12/79] fix: code page entries for U+0080..U+00FF with a
 leading zero byte never matched

Code points are stored without leading zero bytes, so 0100A0 and the like were
dead entries (CP1253, CP874 and GB2312 output) or produced data no other
module understands (CP932 input).
---
 modules/from/_CP932.txt | 16 ++++++++--------
 modules/to/_CP1253.txt  | 42 ++++++++++++++++++++---------------------
 modules/to/_CP874.txt   |  2 +-
 modules/to/_GB2312.txt  | 38 ++++++++++++++++++-------------------
 4 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/modules/from/_CP932.txt b/modules/from/_CP932.txt
index 0669a23..11cc9c1 100644
--- a/modules/from/_CP932.txt
+++ b/modules/from/_CP932.txt
@@ -74,9 +74,9 @@ DF	01FF9F
 8149	01FF01
 814A	01309B
 814B	01309C
-814C	0100B4
+814C	01B4
 814D	01FF40
-814E	0100A8
+814E	01A8
 814F	01FF3E
 8150	01FFE3
 8151	01FF3F
@@ -123,9 +123,9 @@ DF	01FF9F
 817A	013011
 817B	01FF0B
 817C	01FF0D
-817D	0100B1
-817E	0100D7
-8180	0100F7
+817D	01B1
+817E	01D7
+8180	01F7
 8181	01FF1D
 8182	012260
 8183	01FF1C
@@ -136,7 +136,7 @@ DF	01FF9F
 8188	012234
 8189	012642
 818A	012640
-818B	0100B0
+818B	01B0
 818C	012032
 818D	012033
 818E	012103
@@ -149,7 +149,7 @@ DF	01FF9F
 8195	01FF06
 8196	01FF0A
 8197	01FF20
-8198	0100A7
+8198	01A7
 8199	012606
 819A	012605
 819B	0125CB
@@ -207,7 +207,7 @@ DF	01FF9F
 81F4	01266A
 81F5	012020
 81F6	012021
-81F7	0100B6
+81F7	01B6
 81FC	0125EF
 824F	01FF10
 8250	01FF11
diff --git a/modules/to/_CP1253.txt b/modules/to/_CP1253.txt
index b776acd..bd0407f 100644
--- a/modules/to/_CP1253.txt
+++ b/modules/to/_CP1253.txt
@@ -17,35 +17,35 @@
 012014	97
 012122	99
 01203A	9B
-0100A0	A0
+01A0	A0
 010385	A1
 010386	A2
-0100A3	A3
-0100A4	A4
-0100A5	A5
-0100A6	A6
-0100A7	A7
-0100A8	A8
-0100A9	A9
-0100AB	AB
-0100AC	AC
-0100AD	AD
-0100AE	AE
+01A3	A3
+01A4	A4
+01A5	A5
+01A6	A6
+01A7	A7
+01A8	A8
+01A9	A9
+01AB	AB
+01AC	AC
+01AD	AD
+01AE	AE
 012015	AF
-0100B0	B0
-0100B1	B1
-0100B2	B2
-0100B3	B3
+01B0	B0
+01B1	B1
+01B2	B2
+01B3	B3
 010384	B4
-0100B5	B5
-0100B6	B6
-0100B7	B7
+01B5	B5
+01B6	B6
+01B7	B7
 010388	B8
 010389	B9
 01038A	BA
-0100BB	BB
+01BB	BB
 01038C	BC
-0100BD	BD
+01BD	BD
 01038E	BE
 01038F	BF
 010390	C0
diff --git a/modules/to/_CP874.txt b/modules/to/_CP874.txt
index be22c7a..addafe8 100644
--- a/modules/to/_CP874.txt
+++ b/modules/to/_CP874.txt
@@ -8,7 +8,7 @@
 012022	95
 012013	96
 012014	97
-0100A0	A0
+01A0	A0
 010E01	A1
 010E02	A2
 010E03	A3
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 00fab10..37e995f 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -5,7 +5,7 @@ source:	#data
 0130FB	2124
 0102C9	2125
 0102C7	2126
-0100A8	2127
+01A8	2127
 013003	2128
 013005	2129
 012015	212A
@@ -30,9 +30,9 @@ source:	#data
 013017	213D
 013010	213E
 013011	213F
-0100B1	2140
-0100D7	2141
-0100F7	2142
+01B1	2140
+01D7	2141
+01F7	2142
 012236	2143
 012227	2144
 012228	2145
@@ -65,16 +65,16 @@ source:	#data
 012234	2160
 012642	2161
 012640	2162
-0100B0	2163
+01B0	2163
 012032	2164
 012033	2165
 012103	2166
 01FF04	2167
-0100A4	2168
+01A4	2168
 01FFE0	2169
 01FFE1	216A
 012030	216B
-0100A7	216C
+01A7	216C
 012116	216D
 012606	216E
 012605	216F
@@ -543,31 +543,31 @@ source:	#data
 01044E	2770
 01044F	2771
 010101	2821
-0100E1	2822
+01E1	2822
 0101CE	2823
-0100E0	2824
+01E0	2824
 010113	2825
-0100E9	2826
+01E9	2826
 01011B	2827
-0100E8	2828
+01E8	2828
 01012B	2829
-0100ED	282A
+01ED	282A
 0101D0	282B
-0100EC	282C
+01EC	282C
 01014D	282D
-0100F3	282E
+01F3	282E
 0101D2	282F
-0100F2	2830
+01F2	2830
 01016B	2831
-0100FA	2832
+01FA	2832
 0101D4	2833
-0100F9	2834
+01F9	2834
 0101D6	2835
 0101D8	2836
 0101DA	2837
 0101DC	2838
-0100FC	2839
-0100EA	283A
+01FC	2839
+01EA	283A
 013105	2845
 013106	2846
 013107	2847
-- 
2.43.0


From 83dfe06fff0592816bf8ddb774338ca4c04de4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 13/79] fix: rejected bytes pending from an earlier input block
 took the rest of that block with them

---
 src/libbsdconv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 9631226..09d0081 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -668,8 +668,12 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
-									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									//drop one byte, the pending bytes may begin in an earlier block
+									while(prev_phase->data_head->next!=this_phase->curr && prev_phase->data_head->next->len<=this_phase->data_head->len){
+										this_phase->bak=prev_phase->data_head->next->next;
+										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+										this_phase->data_head->len=0;
+									}
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
 									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
 									continue;
-- 
2.43.0


From 8b3cae72d967a1a436c7cd1bdba07681a3b69c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 14/79] fix: STRINGS kept a pointer to the freed characters of
 a string that was too short

---
 modules/inter/STRINGS.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..0ab01cd 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -119,6 +119,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
-- 
2.43.0


From 4007d6779ee4d7e8d6016e5a2c645b304c3bc8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 15/79] fix: BIG5-DEFRAG leaked a list node per character and
 lost a held byte at the end of input

---
 modules/inter/BIG5-DEFRAG.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..a93f970 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -8,12 +8,17 @@ struct my_s{
 };
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	r->p=NULL;
+	r->q=NULL;
 	return 0;
 }
 
 void cbinit(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	if(r->p)
+		DATUM_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
 	r->p=NULL;
 	r->q=NULL;
 	r->r=&(r->q);
@@ -21,7 +26,30 @@ void cbinit(struct bsdconv_instance *ins){
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
-	free(THIS_CODEC(ins)->priv);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+	if(r->p)
+		DATUM_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
+	free(r);
+}
+
+void cbflush(struct bsdconv_instance *ins){
+	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	if(r->f){
+		this_phase->data_tail->next=r->p;
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=r->q;
+		while(this_phase->data_tail->next){
+			this_phase->data_tail=this_phase->data_tail->next;
+		}
+		r->p=r->q=NULL;
+		r->r=&(r->q);
+		r->f=0;
+	}
+
+	this_phase->state.status=NEXTPHASE;
 }
 
 void cbconv(struct bsdconv_instance *ins){
@@ -31,13 +59,12 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	if(r->f==0){
-		if(data[0]==0x3 && data[1]>0x7f){
+		if(this_phase->curr->len>1 && data[0]==0x3 && data[1]>0x7f){
 			r->f=1;
 			r->p=dup_data_rt(ins, this_phase->curr);
 			this_phase->state.status=SUBMATCH;
 			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
-- 
2.43.0


From 01a9e6190e9e41a51509ef26e3dce4b72e79a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 16/79] fix: ESCAPE decoder accepted octal escapes over \377
 and dropped their high bit

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..0c80417 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -126,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From 97658f0b0864df05c4651f6a9cfb1996e1700496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 17/79] fix: ESCAPE decoder read past its buffer for \u0000

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index 0c80417..6b5c569 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -177,7 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					while(i<1 /* instead of 2, to map NUL to 0100 */ && t->buf[i]==0)++i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
-- 
2.43.0


From 1a98a8645336a5d5256695ba114deb014b262ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 18/79] fix: ESCAPE and numeric entity decoders completed a new
 sequence with the state of an aborted one

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 3 +++
 modules/from/ESCAPE.c                    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..d9f6e15 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -44,6 +44,9 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	char d;
 
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		if(d==';' && t->status){
diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index 6b5c569..f2b35ec 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -41,6 +41,9 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=this_phase->codec[this_phase->index].priv;
 	char d;
 
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
-- 
2.43.0


From ce6dcef6af84ea9f55182c3acc384824113017d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 19/79] fix: numeric entity decoder accepted references without
 digits, beyond U+10FFFF or wrapping around, and made NUL an empty code point

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index d9f6e15..fd96a47 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -50,10 +50,11 @@ void cbconv(struct bsdconv_instance *ins){
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		if(d==';' && t->status){
+			if(t->status==1000) DEADEND(); //no digit
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3 /* map NUL to 0100 */)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
@@ -73,6 +74,7 @@ void cbconv(struct bsdconv_instance *ins){
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
+			if(t->buf.i>0x10FFFF) DEADEND();
 		}else{
 			if(d=='x'){
 				t->status=1000;
-- 
2.43.0


From 119f791772b8e922d6d06b17fc1bb935cadc5608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 20/79] fix: BSDCONV decoder freed its pending data twice when
 initialized again

---
 modules/from/BSDCONV.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..c94c9d1 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
-- 
2.43.0


From e1fa61a7ef3569268e9fae86c691035604170d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 21/79] fix: BSDCONV decoder kept ownership of the data it
 flushed and completed a new sequence with the state of an aborted one

---
 modules/from/BSDCONV.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index c94c9d1..d5bd463 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -43,7 +43,14 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	LISTCPY(ins, this_phase->data_tail, &t->data);
+	DATA_MALLOC(ins, this_phase->data_tail->next);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+	this_phase->data_tail->data=t->data.data;
+	this_phase->data_tail->len=t->data.len;
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->flag=F_CLEAR;
 }
 
 void cbconv(struct bsdconv_instance *ins){
@@ -52,6 +59,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *prev_phase=&ins->phase[ins->phase_index-1];
 	struct my_s *t=this_phase->codec[this_phase->index].priv;
 	char d=CP(this_phase->curr->data)[this_phase->i];
+	if(!(this_phase->flags & F_LOOPBACK) && t->flag!=F_CLEAR){ // new sequence, drop what an aborted one left
+		if(t->data.data) free(t->data.data);
+		t->data.data=NULL;
+		t->flag=F_CLEAR;
+	}
 	if(hex[(unsigned char)d]==-1){
 		if(this_phase->flags & F_MATCH){
 			this_phase->flags &= ~(F_PENDING | F_MATCH | F_LOOPBACK);
-- 
2.43.0


From 13ddd3e3a8340405648f9d0b2fc424e05048d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 22/79] fix: _NF-HANGUL-DECOMPOSITION dropped everything that
 is not Unicode

---
 modules/inter/_NF-HANGUL-DECOMPOSITION.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-DECOMPOSITION.c b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
index d882516..d584189 100644
--- a/modules/inter/_NF-HANGUL-DECOMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
@@ -32,6 +32,10 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 		}
+	}else{
+		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
-- 
2.43.0


From 8654e14522d16e5c68d5c832ea947dbb9483a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 23/79] fix: AMBIGUOUS-UNPAD dropped U+A000..U+A0FF, a later
 no-break space and everything that is not Unicode

---
 modules/inter/AMBIGUOUS-UNPAD.c | 49 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..c26bafb 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,39 +46,38 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		for(pad=1;pad<this_phase->curr->len;++pad){
+			ucs<<=8;
+			ucs|=data[pad];
+		}
+
+		if(r->s==1 && ucs==0xA0){
 			r->s=0;
 			return;
-		}else{
-			for(pad=1;pad<this_phase->curr->len;++pad){
-				ucs<<=8;
-				ucs|=data[pad];
-			}
+		}
 
+		pad=0;
+		if (ucs < ambiguous[0].first || ucs > ambiguous[max].last){
 			pad=0;
-			if (ucs < ambiguous[0].first || ucs > ambiguous[max].last){
-				pad=0;
-			}else while (max >= min) {
-					mid = (min + max) / 2;
-					if (ucs > ambiguous[mid].last)
-						min = mid + 1;
-					else if (ucs < ambiguous[mid].first)
-						max = mid - 1;
-					else{
-						pad=1;
-						break;
-					}
-			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+		}else while (max >= min) {
+				mid = (min + max) / 2;
+				if (ucs > ambiguous[mid].last)
+					min = mid + 1;
+				else if (ucs < ambiguous[mid].first)
+					max = mid - 1;
+				else{
+					pad=1;
+					break;
+				}
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
+		r->s=(pad && r->dopad);
 	}else{
 		r->s=0;
 	}
 
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+
 	return;
 }
-- 
2.43.0


From 785785c1974e0822ffba5394ec0b2c640eacc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:34 +0000
Subject: [PATCH 24/79] fix: bsdconv_ctl() left the last controlled codec
 selected

---
 src/libbsdconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 09d0081..e9470da 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -215,8 +215,9 @@ void bsdconv_init(struct bsdconv_instance *ins){
 }
 
 void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
-	int i, j;
+	int i, j, index;
 	for(i=1;i<=ins->phasen;++i){
+		index=ins->phase[i].index;
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(ins->phase[i].codec[j].cbctl){
 				ins->phase_index=i;
@@ -224,6 +225,7 @@ void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
 				ins->phase[i].codec[j].cbctl(ins, ctl, p, v);
 			}
 		}
+		ins->phase[i].index=index; // the codec in progress
 	}
 }
 
-- 
2.43.0


From 46b28298694c1ed00ee9e4a5e62d8bc642529312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 25/79] fix: filter PRINT included the control character U+001F

---
 modules/filter/PRINT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/filter/PRINT.c b/modules/filter/PRINT.c
index ccdb054..ff87606 100644
--- a/modules/filter/PRINT.c
+++ b/modules/filter/PRINT.c
@@ -1,7 +1,7 @@
 #include "../../src/bsdconv.h"
 
 static const struct uint32_range ranges[] = {
-	{ 0x1F, 0x7E },
+	{ 0x20, 0x7E },
 };
 
 #include "unicode_range.c"
-- 
2.43.0


From 07a63463bc63c26bdda67547988a272227fd9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 26/79] fix: WHITESPACE-RERAIL lost the white space at the end
 when the last character reached it at the flush

---
 modules/inter/WHITESPACE-RERAIL.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 2880b18..ff6ed8b 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -98,12 +98,23 @@ void cbconv(struct bsdconv_instance *ins){
 		t->queue=q;
 	}
 
+	this_phase->match_data=NULL;
+
 	if(t->queue){
+		//NEXTPHASE would clear the flags that make bsdconv() flush the queue
+		struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
+		struct data_rt *data_ptr;
+
+		this_phase->bak=this_phase->curr->next;
+		LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+		this_phase->curr=prev_phase->data_head;
+		RESET(ins->phase_index);
+		this_phase->flags &= ~F_LOOPBACK;
 		this_phase->flags |= (F_MATCH | F_PENDING);
+		this_phase->state.status=NOOP;
 	}else{
 		this_phase->flags &= ~(F_MATCH | F_PENDING);
 	}
-	this_phase->match_data=NULL;
 
 	return;
 }
-- 
2.43.0


From d3df45f1c2ff9cb1a26ab9f11b8981189886f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 27/79] fix: bsdconv_hash_get() returned another key's value
 unless the key was the last one used

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..4d90d5e 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
-- 
2.43.0


From 2db0bfe51f68f67a957fdf191de324c1f5b5268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 28/79] fix: bsdconv_hash_del() lost entries or read freed
 memory unless the key was the first one

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index 4d90d5e..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From 5499c749cd3dc83fe2abe2c49b095819346a5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 29/79] fix: bsdconv_create() read the arguments of an alias
 after freeing them

---
 src/libbsdconv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index e9470da..704c936 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -391,7 +391,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	struct bsdconv_instance *ins=NULL;
 	char *conversion=malloc(strlen(_conversion)+1);
 	int i, j;
-	char *c;
+	char *c, *alias;
 	const char *d;
 	char whitespace[256]={0};
 	whitespace['\r']=1;
@@ -429,17 +429,19 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
+					alias=NULL;
 					c=bsdconv_solve_alias(ins->phase[i].type, ins->phase[i].codec[j].desc);
 					if(c==NULL){
 						e=1;
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						alias=ins->phase[i].codec[j].desc; // holds argv
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
+					free(alias);
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
 							free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 79a2ba4e9e298950af2aae49093d4884ae22985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 30/79] fix: bsdconv_unpack() leaked the codecs of earlier
 phases when rejecting a conversion

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 704c936..5b0f8ac 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -372,6 +372,11 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				for(;j>=0;--j){
 					free(ins->phase[i].codec[j].desc);
 				}
+				while(--i>=1){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
 				}
-- 
2.43.0


From 324597fa1f48ec0ad1c92d5054f3763a121cc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 31/79] fix: phase and codec indices below minus their number,
 and the codec index in a new phase, were out of bounds

---
 src/libbsdconv_util.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..eac0abf 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -121,7 +121,7 @@ int bsdconv_get_phase_index(struct bsdconv_instance *ins, int phasen){
 		return ins->phasen + 1;
 	}else{
 		/* real  = (n + len) % (len) + 1*/
-		return (phasen + ins->phasen) % (ins->phasen) + 1;
+		return (phasen % ins->phasen + ins->phasen) % (ins->phasen) + 1;
 	}
 }
 
@@ -132,13 +132,17 @@ int bsdconv_get_codec_index(struct bsdconv_instance *ins, int phasen, int codecn
 	 */
 	phasen=bsdconv_get_phase_index(ins, phasen);
 
+	/* a new phase has no codec yet */
+	if(phasen > ins->phasen)
+		return 0;
+
 	/* logical new index = len */
 	if(codecn /* logical */ >= ins->phase[phasen].codecn+1 /* len */ ){
 		/* real  = logical */
 		return ins->phase[phasen].codecn+1;
 	}else{
 		/* real  = (n + len) % (len) */
-		return (codecn + ins->phase[phasen].codecn+1) % (ins->phase[phasen].codecn+1);
+		return (codecn % (ins->phase[phasen].codecn+1) + ins->phase[phasen].codecn+1) % (ins->phase[phasen].codecn+1);
 	}
 }
 
-- 
2.43.0


From 51230c4d128592b1225d65fc4afe31c5751d4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 32/79] fix: replacing or inserting at an index past the end
 accessed memory out of bounds

---
 src/libbsdconv_util.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index eac0abf..4b76e2c 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -198,6 +198,11 @@ char * bsdconv_insert_codec(const char *conversion, const char *codec, int ophas
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
 	int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);
 
+	if(phasen > ins->phasen){ // no such phase
+		ret=NULL;
+		goto cleanup;
+	}
+
 	++ins->phase[phasen].codecn;
 	ins->phase[phasen].codec=realloc(ins->phase[phasen].codec, sizeof(struct bsdconv_codec)*(ins->phase[phasen].codecn+1));
 
@@ -209,6 +214,7 @@ char * bsdconv_insert_codec(const char *conversion, const char *codec, int ophas
 
 	ret=bsdconv_pack(ins);
 
+cleanup:
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			free(ins->phase[i].codec[j].desc);
@@ -233,6 +239,11 @@ char * bsdconv_replace_phase(const char *conversion, const char *codec, int phas
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
 
+	if(phasen > ins->phasen){ // no such phase
+		ret=NULL;
+		goto cleanup;
+	}
+
 	for(j=0;j<=ins->phase[phasen].codecn;++j){
 		free(ins->phase[phasen].codec[j].desc);
 	}
@@ -244,6 +255,7 @@ char * bsdconv_replace_phase(const char *conversion, const char *codec, int phas
 
 	ret=bsdconv_pack(ins);
 
+cleanup:
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			free(ins->phase[i].codec[j].desc);
@@ -269,12 +281,18 @@ char * bsdconv_replace_codec(const char *conversion, const char *codec, int opha
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
 	int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);
 
+	if(phasen > ins->phasen || codecn > ins->phase[phasen].codecn){ // no such codec
+		ret=NULL;
+		goto cleanup;
+	}
+
 	free(ins->phase[phasen].codec[codecn].desc);
 	ins->phase[phasen].codec[codecn].desc=strdup(codec);
 	ins->phase[phasen].codec[codecn].argv=NULL;
 
 	ret=bsdconv_pack(ins);
 
+cleanup:
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 7889ffc26a17fe1e049ad63164ce1994bfa2a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 33/79] fix: bsdconv_create() destroyed a half-built instance
 when a basic module is missing

---
 src/libbsdconv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 5b0f8ac..8e9d7c6 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -428,9 +428,15 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 			for(j=0;j<=ins->phase[i].codecn;++j){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
-						printf("error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
-						bsdconv_destroy(ins);
+						for(i=1;i<=ins->phasen;++i){
+							for(j=0;j<=ins->phase[i].codecn;++j){
+								free(ins->phase[i].codec[j].desc);
+							}
+							free(ins->phase[i].codec);
+						}
+						free(ins->phase);
+						free(ins);
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
-- 
2.43.0


From 850dd38a806f73a7341e1ef397efd7fea843930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 34/79] fix: bsdconv_create() leaked the data pool when a
 module rejected its arguments

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 8e9d7c6..b175080 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -543,6 +543,11 @@ bsdconv_create_error:
 	free(ins->phase);
 
 	void *p;
+	while(ins->pool){
+		p=ins->pool->next;
+		free(ins->pool);
+		ins->pool=p;
+	}
 	while(ins->hash){
 		free(ins->hash->key);
 		p=ins->hash->next;
-- 
2.43.0


From 166b7797856e19192a2634290fb75db9e056d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 35/79] fix: hexadecimal data with an odd number of digits was
 written past its buffer

---
 src/libbsdconv_util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 4b76e2c..0a5480e 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -26,6 +26,8 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
+	if(strlen(s)%2)
+		return EINVAL;
 	d->data=malloc(strlen(s)/2);
 	d->flags=F_FREE;
 	d->next=NULL;
@@ -80,6 +82,12 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 		t->len=0;
 		t->flags=F_FREE;
 		t->data=malloc(strlen(k)/2);
+		if(strlen(k)%2){
+			DATA_FREE(ins, ph.next);
+			*r=EINVAL;
+			free(s);
+			return NULL;
+		}
 		f=0;
 		while(*k){
 			if(hex[(unsigned char) *k]<0){
-- 
2.43.0


From 67e38a46b69cee907c1ac0222bf07c3943a5bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 36/79] fix: modules crashed on options without the value they
 need

---
 modules/inter/PASS.c    | 2 +-
 modules/inter/SCORE.c   | 4 ++--
 modules/inter/STRINGS.c | 4 ++--
 modules/to/ESCAPE.c     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..99c1e5c 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -22,9 +22,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *scorer="CJK";
 	char *counter="SCORE";
 	while(arg){
-		if(strcasecmp(arg->key, "WITH")==0){
+		if(strcasecmp(arg->key, "WITH")==0 && arg->ptr){
 			scorer=arg->ptr;
-		}else if(strcasecmp(arg->key, "AS")==0){
+		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
 			return EINVAL;
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 0ab01cd..0c75772 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -23,9 +23,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *after="010A";
 	char *before=NULL;
 	while(arg){
-		if(strcasecmp(arg->key, "FOR")==0){
+		if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..a24bfcf 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -38,7 +38,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return e;
 			}
-		}else if(strcasecmp(arg->key, "MODE")==0){
+		}else if(strcasecmp(arg->key, "MODE")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
@@ -51,7 +51,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return EINVAL;
 			}
-		}else if(strcasecmp(arg->key, "FOR")==0){
+		}else if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
-- 
2.43.0


From 121df1148951b2d85ac229ba948839bb3ee7557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 37/79] fix: INSERT, SCORE, STRINGS and TRIM-WIDTH leaked
 memory or a filter when rejecting their arguments

---
 modules/inter/INSERT.c     | 1 +
 modules/inter/SCORE.c      | 1 +
 modules/inter/STRINGS.c    | 2 ++
 modules/inter/TRIM-WIDTH.c | 5 ++++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 99c1e5c..bde3916 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -27,6 +27,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 0c75772..55b0a05 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -49,6 +49,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		if(i){
 			if(r->after)
 				DATA_FREE(ins, r->after);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..2912397 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,13 +29,16 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
 	r->full=bsdconv_counter(r->ins, "FULL");
-- 
2.43.0


From fdea3e9d494663567b9430d753d4ffade6fb2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 38/79] fix: REPLACE without arguments read through a null
 pointer, with several kept freed data

---
 modules/inter/REPLACE.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..fe0b2f7 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -16,15 +16,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
 			free(r);
 			return e;
 		}
-		if(r->from==NULL){
-			free(r);
-			return EINVAL;
-		}
 		if(arg->ptr){
 			r->to=str2data(arg->ptr, &e, ins);
 			if(e){
@@ -35,6 +32,11 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}
 		arg=arg->next;
 	}
+	if(r->from==NULL){
+		DATA_FREE(ins, r->to);
+		free(r);
+		return EINVAL;
+	}
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
-- 
2.43.0


From 6457cd92afade3daca7330b157453c08a9d73c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 39/79] fix: _NFC freed an undefined starter when destroyed
 before bsdconv_init(), and a pending one twice when initialized again

---
 modules/inter/_NFC.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..6f5d55e 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -16,6 +16,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
 	r->err=bsdconv_counter(r->map, "ERR");
+	r->status=0;
 	r->starter=NULL;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
 	r->pending_head->flags=0;
@@ -29,6 +30,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
-- 
2.43.0


From f4b717534424942e1b194764a629e3020b20b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 40/79] fix: _NF-ORDER kept pending marks when initialized
 again and leaked them when destroyed

---
 modules/inter/_NF-ORDER.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..32803c6 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,20 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+static void drop(struct bsdconv_instance *ins, struct my_s *r){
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		DATUM_FREE(ins, r->head->p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head->prev=NULL;
+}
+
+void cbinit(struct bsdconv_instance *ins){
+	drop(ins, THIS_CODEC(ins)->priv);
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +136,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	drop(ins, r);
 	free(r->head);
 	free(r);
 }
-- 
2.43.0


From 65debeeed243853b1f110d53d0a4a28569fd5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 41/79] fix: bsdconv_create() leaked the names of the codecs
 after one that could not be loaded

---
 src/libbsdconv.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index b175080..23d2b40 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -474,14 +474,16 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
-				j-=1;
-				for(;i>=1;j=ins->phase[--i].codecn){
+				for(--j;i>=1;j=ins->phase[--i].codecn){
 					for(;j>=0;--j){
-						free(ins->phase[i].codec[j].desc);
 						unloadcodec(&ins->phase[i].codec[j]);
 					}
 				}
+				for(i=1;i<=ins->phasen;++i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				goto bsdconv_create_error;
 			}
 		}
-- 
2.43.0


From 393239a017a77c28a5d63ccfa6c104cbaeec37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 42/79] fix: modules that need another conversion used it
 without checking that it could be created

---
 modules/inter/ALIAS-FROM.c  | 3 +++
 modules/inter/ALIAS-INTER.c | 3 +++
 modules/inter/TRIM-WIDTH.c  | 4 ++++
 modules/inter/_NFC.c        | 5 +++++
 4 files changed, 15 insertions(+)

diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index e9c9844..b24fece 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 895e8be..cb4e690 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 2912397..4d334be 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -41,6 +41,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	}
 
 	r->ins=bsdconv_create("WIDTH");
+	if(r->ins==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->full=bsdconv_counter(r->ins, "FULL");
 	r->half=bsdconv_counter(r->ins, "HALF");
 	r->ambi=bsdconv_counter(r->ins, "AMBI");
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 6f5d55e..808520d 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "../../src/bsdconv.h"
 
 #include "_NF-CCC.h"
@@ -15,6 +16,10 @@ struct my_s {
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
+	if(r->map==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->status=0;
 	r->starter=NULL;
-- 
2.43.0


From c4acff37aef839014c6e1afe5ba524944258334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 43/79] fix: _JIS leaked its state when one of its tables could
 not be loaded

---
 modules/from/_JIS.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..ee01a3a 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -29,15 +29,18 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->jis0208.desc="_JIS0208";
 	r->jis0212.desc="_JIS0212";
 	if(!loadcodec(&r->jis0201, FROM)){
+		free(r);
 		return 1;
 	}
 	if(!loadcodec(&r->jis0208, FROM)){
 		unloadcodec(&r->jis0201);
+		free(r);
 		return 1;
 	}
 	if(!loadcodec(&r->jis0212, FROM)){
 		unloadcodec(&r->jis0201);
 		unloadcodec(&r->jis0208);
+		free(r);
 		return 1;
 	}
 
-- 
2.43.0


From 956740eaeb7bd88747ad1dfc2760e9833cc15176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 44/79] fix: bsdconv_pack() attached a single intermediate
 phase behind "|" to the conversion before it

---
 src/libbsdconv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 23d2b40..6c10d0d 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -235,6 +235,7 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	const char *end;
 	int len=0;
 	int i, j, n;
+	int within=0; // between FROM and TO
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			len+=strlen(ins->phase[i].codec[j].desc);
@@ -261,11 +262,17 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 							strcat(ret, "|");
 							break;
 						case INTER:
+							strcat(ret, within?":":"|");
+							break;
 						case TO:
 							strcat(ret, ":");
 						break;
 					}
 				}
+				if(ins->phase[i].type==FROM)
+					within=1;
+				else if(ins->phase[i].type==TO)
+					within=0;
 			}else{
 				strcat(ret, ",");
 			}
-- 
2.43.0


From 3a968d68d6122cb73562f50fa6fc52613216ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 45/79] fix: CP950-UDA completed a new sequence with the lead
 byte of an aborted one, also after bsdconv_init()

---
 modules/from/CP950-UDA.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..7304188 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -28,6 +28,9 @@ void cbconv(struct bsdconv_instance *ins){
 
 	unsigned char d = UCP(this_phase->curr->data)[this_phase->i];
 
+	if(!(this_phase->flags & F_LOOPBACK)) // new sequence, drop what an aborted one left
+		r->h = 0;
+
 	if(r->h==0){
 		if(d>=0xFA && d<=0xFE){
 			r->h = d;
-- 
2.43.0


From 027f74fec17ae2806cca9860ee34366db2c478e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 46/79] fix: _JIS completed a new sequence with the state of an
 aborted one and kept its mode after bsdconv_init()

---
 modules/from/_JIS.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index ee01a3a..2bc97e2 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -47,6 +47,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
@@ -63,6 +69,21 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_codec *codec = NULL;
 	struct data_rt *data_ptr;
 
+	if(!(this_phase->flags & F_LOOPBACK)){ // new sequence, drop what an aborted one left
+		r->state = 0;
+		switch(r->mode){
+			case MODE_JIS0201:
+				r->cstate = read_state(&r->jis0201, 0);
+				break;
+			case MODE_JIS0208:
+				r->cstate = read_state(&r->jis0208, 0);
+				break;
+			case MODE_JIS0212:
+				r->cstate = read_state(&r->jis0212, 0);
+				break;
+		}
+	}
+
 	switch(r->state){
 		case 0:
 			switch(d){
-- 
2.43.0


From e3d011cde1ec7826e3106b43af84d905dfbcd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 47/79] fix: CP950-UDA accepted trail bytes outside 40-7E and
 A1-FE

---
 modules/from/CP950-UDA.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index 7304188..a9c7555 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -63,13 +63,17 @@ void cbconv(struct bsdconv_instance *ins){
 	}else{
 		uint32_t b = (r->h<<8)|d;
 		if(
-			(b>=0xFA40 && b<=0xFEFE)
-			||
-			(b>=0x8E40 && b<=0xA0FE)
-			||
-			(b>=0x8140 && b<=0x8DFE)
-			||
-			(b>=0xC6A1 && b<=0xC8FE)
+			((d>=0x40 && d<=0x7E) || (d>=0xA1 && d<=0xFE))
+			&&
+			(
+				(b>=0xFA40 && b<=0xFEFE)
+				||
+				(b>=0x8E40 && b<=0xA0FE)
+				||
+				(b>=0x8140 && b<=0x8DFE)
+				||
+				(b>=0xC6A1 && b<=0xC8FE)
+			)
 		){
 			uint32_t u = r->x + (157 * (r->h - r->y)) + (d<0x80?d-0x40:d-0x62);
 			unsigned char *c;
-- 
2.43.0


From 6bf181759ff8a3ee219fe11b31b5240647bc31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 48/79] fix: _JIS dropped the first byte of a character cut
 short by an escape sequence

---
 modules/from/_JIS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 2bc97e2..069e0f8 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -88,6 +88,10 @@ void cbconv(struct bsdconv_instance *ins){
 		case 0:
 			switch(d){
 				case 0x1B:
+					if(this_phase->flags & F_LOOPBACK){ // inside a character
+						this_phase->state.status = DEADEND;
+						return;
+					}
 					r->state = 0x1B;
 					this_phase->state.status = CONTINUE;
 					return;
-- 
2.43.0


From b4d0f0d9be0e77cc7a104086aca65d381484e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 49/79] fix: _JIS did not know ESC $ ( D, the standard
 designation of JIS X 0212

---
 modules/from/_JIS.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 069e0f8..ad33e36 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -140,6 +140,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2428;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
@@ -185,6 +189,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 				}
 				break;
+			case 0x1B2428: // ESC $ ( D
 			case 0x1B2824:
 				switch(d){
 					case 0x44:
-- 
2.43.0


From 2eb18a13d68a99e6e565ddc714de77dbbb12d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 50/79] fix: _JIS ignored 7-bit katakana (ESC ( I)

---
 modules/from/_JIS.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index ad33e36..cb07a4f 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -7,6 +7,7 @@
 enum {
 	MODE_ASCII,
 	MODE_JIS0201,
+	MODE_JIS0201_KANA,
 	MODE_JIS0208,
 	MODE_JIS0212,
 };
@@ -73,6 +74,7 @@ void cbconv(struct bsdconv_instance *ins){
 		r->state = 0;
 		switch(r->mode){
 			case MODE_JIS0201:
+			case MODE_JIS0201_KANA:
 				r->cstate = read_state(&r->jis0201, 0);
 				break;
 			case MODE_JIS0208:
@@ -100,6 +102,11 @@ void cbconv(struct bsdconv_instance *ins){
 						case MODE_ASCII:
 							this_phase->state.status = DEADEND;
 							return;
+						case MODE_JIS0201_KANA:
+							if(d>=0x21 && d<=0x5F)
+								d |= 0x80;
+							codec = &r->jis0201;
+							break;
 						case MODE_JIS0201:
 							codec = &r->jis0201;
 							break;
@@ -174,7 +181,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 					case 0x49:
 						r->state = 0;
-						r->mode = MODE_JIS0201;
+						r->mode = MODE_JIS0201_KANA;
 						r->cstate = read_state(&r->jis0201, 0);
 						this_phase->state.status = NEXTPHASE;
 						return;
-- 
2.43.0


From 0113533c36f8bedbe0130dfa4098076ab0596eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 51/79] fix: output phases dropped every character of an
 incomplete key and counted one error

---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 6c10d0d..a95084b 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -963,7 +963,11 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							//drop one character, those behind it may have been read as a part of the same key
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak!=this_phase->curr && this_phase->bak->len==0)
+								this_phase->bak=this_phase->bak->next;
+							this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From e451c18b90595a2a5b28bee97e89e2c09bd22741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 52/79] fix: only the first block of a chained input was taken
 as the end of the input list

---
 src/libbsdconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index a95084b..2fb75c1 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -637,7 +637,10 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		while(ins->phase[0].data_tail->next)
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		ins->input.data=NULL;
+		ins->input.next=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
 	}
-- 
2.43.0


From 370d0b8af0e16be0f773531b37363160a82d4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 53/79] fix: output to a descriptor lost what a short or
 interrupted write() did not take

---
 src/libbsdconv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 2fb75c1..ab358ab 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -9,12 +9,12 @@
 #include <string.h>
 #include <ctype.h>
 #include <dirent.h>
+#include <errno.h>
 #include "bsdconv.h"
 #ifdef WIN32
 #include <windows.h>
 #else
 #include <fcntl.h>
-#include <errno.h>
 #include <sys/stat.h>
 #include <sys/mman.h>
 #endif
@@ -1131,7 +1131,13 @@ void bsdconv(struct bsdconv_instance *ins){
 			fd=(intptr_t)ins->output.data;
 			while(last_phase->data_head->next){
 				data_ptr=last_phase->data_head->next;
-				write(fd, data_ptr->data, data_ptr->len);
+				for(i=0;i<data_ptr->len;){
+					ssize_t n=write(fd, CP(data_ptr->data)+i, data_ptr->len-i);
+					if(n>0)
+						i+=n;
+					else if(n==0 || errno!=EINTR)
+						break;
+				}
 				last_phase->data_head->next=last_phase->data_head->next->next;
 				DATUM_FREE(ins, data_ptr);
 			}
-- 
2.43.0


From c848c59b703dc38ac9db10fa4bf940faf456b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 54/79] fix: REPLACE took text behind an unfinished match for
 the rest of it at the end of the input

---
 modules/inter/REPLACE.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index fe0b2f7..5927f50 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -57,10 +57,15 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	unsigned char *datai=this_phase->curr->data;
-	unsigned char *datar=r->cursor->data;
+	unsigned char *datar;
 	size_t l=this_phase->curr->len;
 	size_t i;
 
+	//first of the pending data: a match begun before was given up
+	if(this_phase->curr == PREV_PHASE(ins)->data_head->next)
+		r->cursor=r->from;
+	datar=r->cursor->data;
+
 	if(l != r->cursor->len){
 		r->cursor=r->from;
 		this_phase->state.status=DEADEND;
-- 
2.43.0


From f6c305e4ba7cf874ea77bc08accea6f94505b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 55/79] fix: ASCII-HTML-INFO overran its buffer when the
 CNS11643 plane was above 7F

---
 modules/to/ASCII-HTML-INFO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/to/ASCII-HTML-INFO.c b/modules/to/ASCII-HTML-INFO.c
index ef3ade9..ee3bde7 100644
--- a/modules/to/ASCII-HTML-INFO.c
+++ b/modules/to/ASCII-HTML-INFO.c
@@ -93,7 +93,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
@@ -105,7 +105,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
-- 
2.43.0


From ac40e2b2b176be638b46d1dee2578a16ac0edf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 56/79] fix: UTF-32 output wrote past its buffer for items of
 more than four bytes

---
 modules/to/UTF-32BE.c | 5 +++++
 modules/to/UTF-32LE.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..f213b1d 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -9,6 +9,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..b894fac 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -11,6 +11,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
-- 
2.43.0


From e9099c0a7b8963e3e00ff333aa08f475d922078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 57/79] fix: _GB18030 output overran its code point for items
 of more than four bytes

---
 modules/to/_GB18030.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..0d25bd4 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -42,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len>sizeof(codepoint)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
 		codepoint.byte[3-i]=data[len-i-1];
-- 
2.43.0


From 3544ccf74670d5562eff52f52245b8e591c0e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 58/79] fix: ASCII-HTML-UNICODE-IMG overran its buffer for long
 items

---
 modules/to/ASCII-HTML-UNICODE-IMG.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..b3955a4 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -6,7 +6,7 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 void cbconv(struct bsdconv_instance *ins){
-	char *data, *p, buf[128]={0};
+	char *data, *p, *buf;
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
@@ -15,10 +15,10 @@ void cbconv(struct bsdconv_instance *ins){
 		return;
 	}
 	this_phase->state.status=NEXTPHASE;
-	p=buf;
 	i=*data;
 	data+=1;
 	len=this_phase->curr->len-1;
+	p=buf=malloc(len*2+100);
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
@@ -38,8 +38,7 @@ void cbconv(struct bsdconv_instance *ins){
 	len=p-buf;
 	this_phase->data_tail->len=len;
 	this_phase->data_tail->flags=F_FREE;
-	this_phase->data_tail->data=malloc(len);
-	memcpy(this_phase->data_tail->data, buf, len);
+	this_phase->data_tail->data=buf;
 
 	return;
 }
-- 
2.43.0


From 40a895f3b17788652ee5a56d275bc2ad1915f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 59/79] fix: UTF-8 and UTF-16 output encoded values above
 10FFFF

---
 modules/to/UTF-16BE.c | 4 ++++
 modules/to/UTF-16LE.c | 4 ++++
 modules/to/_UTF-8.c   | 4 ++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/to/UTF-16BE.c b/modules/to/UTF-16BE.c
index 8722088..3579754 100644
--- a/modules/to/UTF-16BE.c
+++ b/modules/to/UTF-16BE.c
@@ -10,6 +10,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
+	if(this_phase->curr->len > 4 || (this_phase->curr->len == 4 && (unsigned char)*data > 0x10)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 	if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
diff --git a/modules/to/UTF-16LE.c b/modules/to/UTF-16LE.c
index 09f3e17..fa6b68b 100644
--- a/modules/to/UTF-16LE.c
+++ b/modules/to/UTF-16LE.c
@@ -12,6 +12,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
+	if(this_phase->curr->len > 4 || (this_phase->curr->len == 4 && (unsigned char)*data > 0x10)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 	if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
diff --git a/modules/to/_UTF-8.c b/modules/to/_UTF-8.c
index d6e1494..2f67645 100644
--- a/modules/to/_UTF-8.c
+++ b/modules/to/_UTF-8.c
@@ -80,8 +80,8 @@ void cbconv(struct bsdconv_instance *ins){
 			}
 			break;
 		case 3:
-			switch(*data & bb11100000){
-				case 0:
+			switch((unsigned char)*data <= 0x10){
+				case 1:
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
-- 
2.43.0


From 29313ff4c1afc116f1f1ae8f0d7d93b26bff7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 60/79] fix: EBCDIC input swallowed the bytes behind a byte
 that begins no double-byte character, SI included

---
 modules/from/EBCDIC.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/EBCDIC.c b/modules/from/EBCDIC.c
index cb6dc62..6d2cf2f 100644
--- a/modules/from/EBCDIC.c
+++ b/modules/from/EBCDIC.c
@@ -28,6 +28,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	unsigned char *c;
 
+	if(this_phase->flags & F_LOOPBACK){ // the sequence does not go on with this byte
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
 
-- 
2.43.0


From 33d5a952e667c988df23e3d8a7c074a24e569928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 61/79] fix: EBCDIC output took an unmapped character for the
 one whose code point is a prefix of its own

---
 modules/to/EBCDIC.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index afb2170..9b4dd7d 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -50,6 +50,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	struct data_rt *data_ptr;
 
+	if(this_phase->i < this_phase->curr->len){ // only the beginning of the character is in the table
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
 	if(data.len>1 && t->status==0){
-- 
2.43.0


From a4f085f68877b00b032d9149c031551a64260afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 62/79] fix: EBCDIC output lost a character it cannot map
 behind a double-byte one without counting it

---
 modules/to/EBCDIC.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index 9b4dd7d..88eaf01 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -23,6 +23,7 @@ void cbflush(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 
 	this_phase->flags &= ~F_PENDING;
+	this_phase->curr=PREV_PHASE(ins)->data_head; // what did not match is looked at again
 	if(t->status!=0){
 		t->status=0;
 
-- 
2.43.0


From d5d70456fad5668148fd58c07d87f8dfc755e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:04 +0000
Subject: [PATCH 63/79] fix: EBCDIC output wrote U+000E and U+000F as the shift
 codes they would be read as

---
 modules/to/EBCDIC.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index 88eaf01..14906d3 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -58,6 +58,14 @@ void cbconv(struct bsdconv_instance *ins){
 
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
+	if(data.len==1){
+		char c=*CP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
+		if(c=='\x0E' || c=='\x0F'){ // a control character cannot be told from a shift code
+			this_phase->state.status=DEADEND;
+			return;
+		}
+	}
+
 	if(data.len>1 && t->status==0){
 		t->status=1;
 		this_phase->flags |= F_PENDING;
-- 
2.43.0


From af71fbbed5e1e4adfa7d0ba345709c0551588843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 64/79] fix: bsdconv -i removed the file before putting the
 conversion in its place

---
 src/bsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..7fc6f5a 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -150,7 +150,9 @@ int main(int argc, char *argv[]){
 			bsdconv_file(ins, inf, otf, argv[i]);
 			fclose(inf);
 			fclose(otf);
+#ifdef WIN32
 			unlink(argv[i]);
+#endif
 			rename(tmp,argv[i]);
 			free(tmp);
 
-- 
2.43.0


From 68ad32b304ef167e073ff1fcb7eab2bbc895ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 65/79] fix: bsdconv -i left its temporary file behind when it
 could not be opened as a stream

---
 src/bsdconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 7fc6f5a..094883a 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -138,6 +138,9 @@ int main(int argc, char *argv[]){
 			otf=fdopen(fd, "wb");
 			if(!otf){
 				fprintf(stderr, "Unable to open output file for %s\n", argv[i]);
+				close(fd);
+				unlink(tmp);
+				free(tmp);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
-- 
2.43.0


From 2881a096e05acdc95f24ed284781df436714332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 66/79] fix: bsdconv ignored read and write errors, -i then
 replaced the file by what was left

---
 src/bsdconv.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 094883a..07abc1c 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -41,7 +41,7 @@ void list_modules(){
 	exit(0);
 }
 
-void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
+int bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
 	do{
@@ -70,6 +70,7 @@ void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char
 		}
 		c=c->next;
 	}
+	return ferror(in) || ferror(out);
 }
 
 int main(int argc, char *argv[]){
@@ -79,6 +80,7 @@ int main(int argc, char *argv[]){
 	struct bsdconv_instance *ins;
 	FILE *inf=NULL, *otf=stdout;
 	int inplace=0;
+	int failed=0;
 	int i;
 
 	if(argc<2){
@@ -117,7 +119,7 @@ int main(int argc, char *argv[]){
 	}
 
 	if(i>=argc){
-		bsdconv_file(ins, stdin, stdout, NULL);
+		failed=bsdconv_file(ins, stdin, stdout, NULL);
 	}else for(;i<argc;++i){
 		if(inplace){
 			inf=fopen(argv[i],"rb");
@@ -150,13 +152,21 @@ int main(int argc, char *argv[]){
 			fchown(fileno(otf), stat.st_uid, stat.st_gid);
 			fchmod(fileno(otf), stat.st_mode);
 #endif
-			bsdconv_file(ins, inf, otf, argv[i]);
+			failed=bsdconv_file(ins, inf, otf, argv[i]);
 			fclose(inf);
-			fclose(otf);
+			if(fclose(otf)!=0)
+				failed=1;
 #ifdef WIN32
-			unlink(argv[i]);
+			if(!failed)
+				unlink(argv[i]);
 #endif
-			rename(tmp,argv[i]);
+			if(failed || rename(tmp,argv[i])!=0){
+				fprintf(stderr, "Failed converting file %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
@@ -166,11 +176,18 @@ int main(int argc, char *argv[]){
 				bsdconv_destroy(ins);
 				exit(1);
 			}
-			bsdconv_file(ins, inf, stdout, argv[i]);
+			failed|=bsdconv_file(ins, inf, stdout, argv[i]);
 			fclose(inf);
 		}
 	}
 	bsdconv_destroy(ins);
 
+	if(fflush(stdout)!=0)
+		failed=1;
+	if(failed){
+		fprintf(stderr, "Failed reading input or writing output.\n");
+		exit(1);
+	}
+
 	return 0;
 }
-- 
2.43.0


From 5a70bd2102ad76e7eeff9a93f7be6c05b9d3e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 67/79] fix: bsdconv reported the errors of earlier files again
 with every further file

---
 src/bsdconv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 07abc1c..0e79c54 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -44,6 +44,7 @@ void list_modules(){
 int bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
+	bsdconv_counter_reset(ins, NULL);
 	do{
 		ib=bsdconv_malloc(IBUFLEN);
 		ins->input.data=ib;
-- 
2.43.0


From ea95bf5de664fcb97583cbd8d326dd0d803e6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 68/79] fix: bsdconv-mktable read beyond its case table and
 filled it wrongly

The loops run over 257 characters (256 is the item separator), the table had
256 entries; it had no entries for lower case letters, but one from '[' to '{'
and one from 'a' to '['.
---
 src/bsdconv-mktable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..8de4414 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -75,7 +75,7 @@ struct hash{
 };
 
 char table[256]={};
-char ci_table[256]={0};
+char ci_table[257]={0};
 
 uintptr_t offset=0;
 struct m_state_st *state_r, *state_t, holder;
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
-- 
2.43.0


From eb50be93d6c52b7c5998c10b799f6e7c65b8155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 69/79] fix: bsdconv-mktable lost longer keys when a shorter
 one came again

A key that has got longer ones behind it became a final one when an entry
without a callback replaced one with a callback, or one that matches the case
one that does not.
---
 src/bsdconv-mktable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 8de4414..ce29832 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -410,7 +410,10 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							todo_item->state->base[c]=state_t;
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
-							todo_item->state->base[c]->status=MATCH;
+							if(todo_item->state->base[c]->status==SUBMATCH || todo_item->state->base[c]->status==SUBMATCH_SUBROUTINE)
+								todo_item->state->base[c]->status=SUBMATCH;
+							else
+								todo_item->state->base[c]->status=MATCH;
 						}
 					}
 				}else if(callback){
-- 
2.43.0


From 79ba26fbadc642229e58174e952943924f2ca8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 70/79] fix: bsdconv-mktable crashed on blank lines

---
 src/bsdconv-mktable.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index ce29832..9eb3715 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -240,14 +240,12 @@ int main(int argc, char *argv[]){
 		if(inbuf[0]=='#') continue;
 		tmp=inbuf;
 		f=of=strsep((char **)&tmp, "\t ");
-		while(strchr("\t ",*tmp)){
+		if(!*f || !tmp) //no key or no output
+			continue;
+		while(*tmp && strchr("\t ",*tmp)){
 			++tmp;
 		}
-		if(*tmp){
-			t=ot=strsep((char **)&tmp, "\t\r\n# ");
-		}else{
-			t=ot=NULL;
-		}
+		t=ot=strsep((char **)&tmp, "\t\r\n# ");
 
 		todo=malloc(sizeof(struct states));
 		todo->n=NULL;
-- 
2.43.0


From 17b721260e815afafa063f298a74fa2d4333502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:12 +0000
Subject: [PATCH 71/79] fix: finding a module changed the working directory of
 the process

The directory was not restored when it could not be determined or when
bsdconv_modules_list was asked for an unknown type, other threads saw the change
in any case, bsdconv_module_check crashed for an unknown type, took . and .. for
modules, and a path close to PATH_MAX overran the buffer when the extension was
appended. Paths are built instead.
---
 src/bsdconv.h           |   1 +
 src/libbsdconv.c        |  41 +++++-----------
 src/libbsdconv_filter.c |  17 ++-----
 src/libbsdconv_module.c | 101 +++++++++-------------------------------
 src/libbsdconv_scorer.c |  17 ++-----
 src/libbsdconv_util.c   |  30 ++++++++++++
 6 files changed, 69 insertions(+), 138 deletions(-)

diff --git a/src/bsdconv.h b/src/bsdconv.h
index bf74de9..a6e762d 100644
--- a/src/bsdconv.h
+++ b/src/bsdconv.h
@@ -332,6 +332,7 @@ int bsdconv_mkstemp(char *);
 int str2datum(const char *, struct data_rt *);
 struct data_rt * str2data(const char *, int *, struct bsdconv_instance *);
 char * getCodecDir();
+char * getModulePath(int, const char *, const char *);
 
 //Callback function interface
 void cbconv(struct bsdconv_instance *);
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index ab358ab..7449944 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -73,7 +73,7 @@ static inline int _cbcreate(struct bsdconv_instance *ins, int p, int c){
 	return r;
 }
 
-int _loadcodec(struct bsdconv_codec *cd, char *path){
+int _loadcodec(struct bsdconv_codec *cd, char *path, char *so){
 #ifdef WIN32
 	if ((cd->fd=CreateFile(path, GENERIC_READ, FILE_SHARE_READ, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_NORMAL, NULL))==INVALID_HANDLE_VALUE){
 		SetLastError(EOPNOTSUPP);
@@ -114,9 +114,8 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 	cd->cbconv=NULL;
 	cd->cbflush=NULL;
 	cd->cbdestroy=NULL;
-	strcat(path, "." SHLIBEXT);
 
-	if((cd->dl=OPEN_SHAREOBJECT(path))){
+	if((cd->dl=OPEN_SHAREOBJECT(so))){
 		cd->cbconv=SHAREOBJECT_SYMBOL(cd->dl,"cbconv");
 		cd->cbflush=SHAREOBJECT_SYMBOL(cd->dl,"cbflush");
 		cd->cbcreate=SHAREOBJECT_SYMBOL(cd->dl,"cbcreate");
@@ -129,37 +128,19 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 }
 
 int loadcodec(struct bsdconv_codec *cd, int type){
-	char *cwd;
-	char *c;
-	char buf[PATH_MAX+1];
 	char *upper;
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	switch(type){
-		case FROM:
-			chdir("from");
-			break;
-		case INTER:
-			chdir("inter");
-			break;
-		case TO:
-			chdir("to");
-			break;
-	}
+	char *path;
+	char *so;
+	int ret;
 	upper=strdup(cd->desc);
 	strtoupper(upper);
-	REALPATH(upper, buf);
-	chdir(cwd);
-	free(cwd);
+	path=getModulePath(type, upper, "");
+	so=getModulePath(type, upper, "." SHLIBEXT);
 	free(upper);
-	if(!_loadcodec(cd, buf))
-		return 0;
-	return 1;
+	ret=_loadcodec(cd, path, so);
+	free(path);
+	free(so);
+	return ret;
 }
 
 void unloadcodec(struct bsdconv_codec *cd){
diff --git a/src/libbsdconv_filter.c b/src/libbsdconv_filter.c
index d386c4e..96d0e8e 100644
--- a/src/libbsdconv_filter.c
+++ b/src/libbsdconv_filter.c
@@ -1,9 +1,8 @@
 struct bsdconv_filter *load_filter(const char *_name){
 	struct bsdconv_filter *filter;
 
-	char *cwd;
 	char *c;
-	char path[PATH_MAX+1];
+	char *path;
 	char *name=strdup(_name);
 	strtoupper(name);
 
@@ -17,22 +16,12 @@ struct bsdconv_filter *load_filter(const char *_name){
 		free(name);
 		name=c;
 	}
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	chdir("filter");
-	REALPATH(name, path);
-	chdir(cwd);
-	free(cwd);
+	path=getModulePath(FILTER, name, "." SHLIBEXT);
 	free(name);
-	strcat(path, "." SHLIBEXT);
 
 	filter=malloc(sizeof(struct bsdconv_filter));
 	filter->so=OPEN_SHAREOBJECT(path);
+	free(path);
 	if(!filter->so){
 		free(filter);
 		return NULL;
diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2cc822b..2c1f0a8 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -80,61 +80,26 @@ int bsdconv_codec_check(int type, const char *_codec){
 
 int bsdconv_module_check(int type, const char *_codec){
 	int ret=0;
-	char *cwd;
-	char *codec=NULL;
+	char *codec;
+	char *path;
 	FILE *fp;
-	char *c;
 
-	cwd=getcwd(NULL, 0);
-
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
+	if(*_codec==0 || strpbrk(_codec, "./")) //not the name of a module
+		return 0;
 
-	chdir(MODULES_SUBPATH);
-	switch(type){
-		case FROM:
-			chdir("from");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case INTER:
-			chdir("inter");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case TO:
-			chdir("to");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case FILTER:
-			chdir("filter");
-			codec=malloc(strlen(_codec) + strlen("." SHLIBEXT) + 1);
-			strcpy(codec, _codec);
-			strtoupper(codec);
-			strcat(codec, "." SHLIBEXT);
-			break;
-		case SCORER:
-			chdir("scorer");
-			codec=malloc(strlen(_codec) + strlen("." SHLIBEXT) + 1);
-			strcpy(codec, _codec);
-			strtoupper(codec);
-			strcat(codec, "." SHLIBEXT);
-			break;
-	}
+	codec=strdup(_codec);
+	strtoupper(codec);
+	path=getModulePath(type, codec, (type==FILTER || type==SCORER)?"." SHLIBEXT:"");
+	free(codec);
+	if(path==NULL)
+		return 0;
 
-	fp=fopen(codec, "rb");
+	fp=fopen(path, "rb");
 	if(fp!=NULL){
 		fclose(fp);
 		ret=1;
 	}
-	free(codec);
-
-	chdir(cwd);
-	free(cwd);
+	free(path);
 
 	return ret;
 }
@@ -151,42 +116,19 @@ char ** bsdconv_modules_list(int phase_type){
 	char **list=malloc(sizeof(char *) * 8);
 	int size=8;
 	int length=0;
-	char *cwd;
 	char *c;
 	DIR *dir;
 	struct dirent *d;
 	FILE *fp;
 	char buf[256];
-	const char *type;
-	cwd=getcwd(NULL, 0);
+	char *path;
 
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
 	list[0]=NULL;
-	chdir(MODULES_SUBPATH);
-	switch(phase_type){
-		case FROM:
-			type="from";
-			break;
-		case INTER:
-			type="inter";
-			break;
-		case TO:
-			type="to";
-			break;
-		case FILTER:
-			type="filter";
-			break;
-		case SCORER:
-			type="scorer";
-			break;
-		default:
-			return list;
-	}
-	dir=opendir(type);
+	path=getModulePath(phase_type, "", "");
+	if(path==NULL)
+		return list;
+	dir=opendir(path);
+	free(path);
 	if(dir!=NULL){
 		if(phase_type==FILTER || phase_type==SCORER){
 			while((d=readdir(dir))!=NULL){
@@ -215,8 +157,9 @@ char ** bsdconv_modules_list(int phase_type){
 		}
 		closedir(dir);
 	}
-	chdir(type);
-	fp=fopen("alias","rb");
+	path=getModulePath(phase_type, "alias", "");
+	fp=fopen(path,"rb");
+	free(path);
 	if(fp!=NULL){
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
 			if(buf[0]=='#')
@@ -237,7 +180,5 @@ char ** bsdconv_modules_list(int phase_type){
 	}
 	qsort(list, length, sizeof(char *), scmp);
 	list[length]=NULL;
-	chdir(cwd);
-	free(cwd);
 	return list;
 }
diff --git a/src/libbsdconv_scorer.c b/src/libbsdconv_scorer.c
index 69cda29..42227e5 100644
--- a/src/libbsdconv_scorer.c
+++ b/src/libbsdconv_scorer.c
@@ -1,9 +1,8 @@
 struct bsdconv_scorer *load_scorer(const char *_name){
 	struct bsdconv_scorer *scorer;
 
-	char *cwd;
 	char *c;
-	char path[PATH_MAX+1];
+	char *path;
 	char *name=strdup(_name);
 	strtoupper(name);
 
@@ -17,22 +16,12 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 		free(name);
 		name=c;
 	}
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	chdir("scorer");
-	REALPATH(name, path);
-	chdir(cwd);
-	free(cwd);
+	path=getModulePath(SCORER, name, "." SHLIBEXT);
 	free(name);
-	strcat(path, "." SHLIBEXT);
 
 	scorer=malloc(sizeof(struct bsdconv_scorer));
 	scorer->so=OPEN_SHAREOBJECT(path);
+	free(path);
 	if(!scorer->so){
 		free(scorer);
 		return NULL;
diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 0a5480e..fa2289e 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -21,6 +21,36 @@ char * getCodecDir(){
 	return b;
 }
 
+char * getModulePath(int type, const char *name, const char *ext){
+	char *dir;
+	char *base;
+	char *ret;
+	switch(type){
+		case FROM:
+			dir="from";
+			break;
+		case INTER:
+			dir="inter";
+			break;
+		case TO:
+			dir="to";
+			break;
+		case FILTER:
+			dir="filter";
+			break;
+		case SCORER:
+			dir="scorer";
+			break;
+		default:
+			return NULL;
+	}
+	base=getCodecDir();
+	ret=malloc(strlen(base)+strlen(dir)+strlen(name)+strlen(ext)+3);
+	sprintf(ret, "%s/%s/%s%s", base, dir, name, ext);
+	free(base);
+	return ret;
+}
+
 int str2datum(const char *s, struct data_rt *d){
 	d->data=NULL;
 	d->len=0;
-- 
2.43.0


From fabef68e29a21cc956d22a6dc9113bc078188c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:30 +0000
Subject: [PATCH 72/79] fix: BSDCONV-LOG crashed when its file is not named or
 cannot be opened

---
 modules/from/BSDCONV-LOG.c | 10 +++++++++-
 modules/to/BSDCONV-LOG.c   | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/modules/from/BSDCONV-LOG.c b/modules/from/BSDCONV-LOG.c
index 1483bf8..41a3ebe 100644
--- a/modules/from/BSDCONV-LOG.c
+++ b/modules/from/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,14 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_FROM_LOG"),"a");
+	char *p=getenv("BSDCONV_FROM_LOG");
+	FILE *fp;
+	if(p==NULL)
+		return EINVAL;
+	fp=fopen(p,"a");
+	if(fp==NULL)
+		return errno;
+	THIS_CODEC(ins)->priv=fp;
 	return 0;
 }
 
diff --git a/modules/to/BSDCONV-LOG.c b/modules/to/BSDCONV-LOG.c
index 533e5ec..4542f80 100644
--- a/modules/to/BSDCONV-LOG.c
+++ b/modules/to/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,14 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_TO_LOG"),"a");
+	char *p=getenv("BSDCONV_TO_LOG");
+	FILE *fp;
+	if(p==NULL)
+		return EINVAL;
+	fp=fopen(p,"a");
+	if(fp==NULL)
+		return errno;
+	THIS_CODEC(ins)->priv=fp;
 	return 0;
 }
 
-- 
2.43.0


From f963cb1210e3c68627ca196b1efea3c136d49498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:30 +0000
Subject: [PATCH 73/79] fix: SCORE and SCORE-TRAIN crashed without HOME or
 score file and counted an undefined score behind its end

---
 modules/inter/SCORE-TRAIN.c | 30 +++++++++++++++++++++++-------
 modules/inter/SCORE.c       | 15 +++++++++------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index 714501e..06f7fd2 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -12,16 +13,31 @@ struct my_s{
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	char buf[256]={0};
+	char *home=getenv("HOME");
+	char *buf=NULL;
+	int e;
 	char *p=getenv("BSDCONV_SCORE");
-	if(p==NULL){
-		strcpy(buf,getenv("HOME"));
+	if(p==NULL && home!=NULL){
+		p=buf=malloc(strlen(home)+strlen("/.bsdconv.score")+1);
+		strcpy(buf,home);
 		strcat(buf,"/.bsdconv.score");
-		p=buf;
+	}
+	if(p==NULL){
+		free(r);
+		return EOPNOTSUPP;
 	}
 	r->bak=fopen(p,"a"); //ensure file existence
-	fclose(r->bak);
-	r->bak=r->score=fopen(p,"rb+");
+	if(r->bak){
+		fclose(r->bak);
+		r->bak=fopen(p,"rb+");
+	}
+	e=errno;
+	free(buf);
+	if(r->bak==NULL){
+		free(r);
+		return e;
+	}
+	r->score=r->bak;
 	r->list=NULL;
 	THIS_CODEC(ins)->priv=r;
 	return 0;
@@ -59,7 +75,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
 
-	if(data[0]==0x1){
+	if(this_phase->curr->len>0 && data[0]==0x1){
 		for(i=1;i<this_phase->curr->len;++i){
 			ucs<<=8;
 			ucs|=data[i];
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index bde3916..5310c57 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -14,7 +14,6 @@ struct my_s{
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	char buf[256]={0};
 	r->bak=NULL;
 	r->score=NULL;
 	r->scorer=NULL;
@@ -35,13 +34,17 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 
 	if(strcasecmp(scorer, "TRAINED")==0){
 		char *p=getenv("BSDCONV_SCORE");
-		if(p==NULL){
+		char *home=getenv("HOME");
+		char *buf=NULL;
+		if(p==NULL && home!=NULL){
 			//try default score file
-			strcpy(buf,getenv("HOME"));
+			p=buf=malloc(strlen(home)+strlen("/.bsdconv.score")+1);
+			strcpy(buf,home);
 			strcat(buf,"/.bsdconv.score");
-			p=buf;
 		}
-		r->bak=r->score=fopen(p,"rb+");
+		if(p!=NULL)
+			r->bak=r->score=fopen(p,"rb+");
+		free(buf);
 	}else{
 		r->scorer=load_scorer(scorer);
 		if(r->scorer==NULL){
@@ -80,7 +83,7 @@ void cbconv(struct bsdconv_instance *ins){
 	FILE *fp=r->score;
 	int i;
 	uint32_t ucs=0;
-	unsigned char v;
+	unsigned char v=0;
 	uint32_t score;
 	data=this_phase->curr->data;
 
-- 
2.43.0


From 850e615c7dd2f9cf3c4105355bcd442e68ec49d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:44 +0000
Subject: [PATCH 74/79] fix: bsdconv-man crashed on unknown phases and empty
 pages and did not find modules below a relative path

---
 src/bsdconv-man.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 9028ad0..08aa415 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -42,19 +42,16 @@ static int man(char *pc){
 		phase_dir="filter";
 	}else{
 		free(phase);
-		free(codec);
 		return 1;
 	}
 
 	path=getCodecDir();
-	chdir(path);
-	chdir(phase_dir);
 
-	codec_filename=malloc(strlen(codec)+5);
-	sprintf(codec_filename, "%s.man", codec);
+	codec_filename=malloc(strlen(path)+strlen(phase_dir)+strlen(codec)+7);
+	sprintf(codec_filename, "%s/%s/%s.man", path, phase_dir, codec);
 	fp=fopen(codec_filename, "rb");
 	if(fp){
-		if(fscanf(fp, ".redirect %s", buf)){
+		if(fscanf(fp, ".redirect %255s", buf)==1){
 			fclose(fp);
 			free(codec_filename);
 			free(phase);
-- 
2.43.0


From 6db0cfb508f95bc8aa7b06c47aeddf4cd4cdeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:44 +0000
Subject: [PATCH 75/79] fix: bsdconv-completion read before the beginning of an
 empty argument

---
 src/bsdconv-completion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-completion.c b/src/bsdconv-completion.c
index 8a3aaee..e24606f 100644
--- a/src/bsdconv-completion.c
+++ b/src/bsdconv-completion.c
@@ -32,7 +32,7 @@ int main(int argc, char *argv[]){
 		arg+=1;
 	}
 	i=strlen(arg)-1;
-	if(arg[i]=='\'' || arg[i]=='"'){
+	if(i>=0 && (arg[i]=='\'' || arg[i]=='"')){
 		arg[i]=0;
 	}
 
-- 
2.43.0


From fec7a1ef58a5bd0744e6f59ca299e53aa174353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:39 +0000
Subject: [PATCH 76/79] fix: the error of a JIS decoder without its tables was
 unknown

---
 modules/from/_JIS.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index cb07a4f..decfd9c 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -31,18 +32,18 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->jis0212.desc="_JIS0212";
 	if(!loadcodec(&r->jis0201, FROM)){
 		free(r);
-		return 1;
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0208, FROM)){
 		unloadcodec(&r->jis0201);
 		free(r);
-		return 1;
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0212, FROM)){
 		unloadcodec(&r->jis0201);
 		unloadcodec(&r->jis0208);
 		free(r);
-		return 1;
+		return EOPNOTSUPP;
 	}
 
 	return 0;
-- 
2.43.0


From 6391279a3d088f5ae4fd6ba4c28b5f350f5a8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:17 +0000
Subject: [PATCH 77/79] fix: ANSI-CONTROL took text behind an unfinished
 control sequence for the rest of it

---
 modules/from/ANSI-CONTROL.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/ANSI-CONTROL.c b/modules/from/ANSI-CONTROL.c
index 80f372a..b1e3067 100644
--- a/modules/from/ANSI-CONTROL.c
+++ b/modules/from/ANSI-CONTROL.c
@@ -35,6 +35,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	char d=CP(this_phase->curr->data)[this_phase->i];
 
+	if(!(this_phase->flags & F_LOOPBACK)){ // new sequence, drop what an aborted one left
+		t->p=t->buf;
+		t->f=0;
+	}
+
 	if(t->f){
 		*(t->p)=d;
 		t->p+=1;
-- 
2.43.0


From 7a5df555e6d64411d5bedfa517df0380e316ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:50 +0000
Subject: [PATCH 78/79] fix: ZH-BONUS and ZH-BONUS-PHRASE replaced characters
 whose code begins like that of a listed one

---
 modules/inter/BONUS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/inter/BONUS.c b/modules/inter/BONUS.c
index b307c64..fbab31b 100644
--- a/modules/inter/BONUS.c
+++ b/modules/inter/BONUS.c
@@ -12,6 +12,12 @@ void cbconv(struct bsdconv_instance *ins){
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct data_st data_st;
+
+	if(this_phase->i < this_phase->curr->len){ // the listed item is only the beginning of this one
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data_st, (char *)((this_phase->codec[this_phase->index].data_z)+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	data=UCP((THIS_CODEC(ins)->data_z)+(uintptr_t)de_offset(data_st.data));
 
-- 
2.43.0


From 20e363e036a6ab16d7adce006a0fca279cae2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:50 +0000
Subject: [PATCH 79/79] fix: keep data items in the pool of the instance they
 came from (TRIM-WIDTH)

---
 modules/inter/TRIM-WIDTH.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 4d334be..285cb17 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -66,6 +66,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	struct bsdconv_phase *last_phase=LAST_PHASE(r->ins);
+	struct data_rt *t;
 
 	bsdconv_counter_reset(r->ins, NULL);
 	bsdconv_init(r->ins);
@@ -76,12 +78,15 @@ void cbconv(struct bsdconv_instance *ins){
 	bsdconv(r->ins);
 	int w=*(r->full)*2 + *(r->half) + *(r->ambi) * r->ambi_width;
 	if(r->remain >= w){
-		this_phase->data_tail->next=r->ins->phase[r->ins->phasen].data_head->next;
-		while(this_phase->data_tail->next){
+		while(last_phase->data_head->next){
+			t=last_phase->data_head->next;
+			this_phase->data_tail->next=dup_data_rt(ins, t);
 			this_phase->data_tail=this_phase->data_tail->next;
+			this_phase->data_tail->next=NULL;
+			last_phase->data_head->next=t->next;
+			DATUM_FREE(r->ins, t);
 		}
-		r->ins->phase[r->ins->phasen].data_head->next=NULL;
-		r->ins->phase[r->ins->phasen].data_tail=r->ins->phase[r->ins->phasen].data_head;
+		last_phase->data_tail=last_phase->data_head;
 		r->remain -= w;
 	}else{
 		r->remain=-1;
-- 
2.43.0

