From ca3ace6d5803dbcce11b3ed22efb0b92389a66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:44 +0000
Subject: [PATCH 01/30] fix: bound name decoding by the message and reject
 compression pointer loops

---
 dnsparser.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..75b7bb9 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -14,12 +14,27 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
     const char *NameItr = NameStart;
     int LabelsLength = 0;
     BOOL Redirected = FALSE;
-    int LabelCount = GET_8_BIT_U_INT(NameItr); /* The amount of characters of the next label */
+    int PointerLimit; /* A pointer must point to somewhere before its name */
+    int LabelCount; /* The amount of characters of the next label */
+
+    if( DNSBody != NULL && NameItr >= DNSBody + DNSBodyLength )
+    {
+        return -1;
+    }
+
+    PointerLimit = DNSBody == NULL ? INT_MAX : NameStart - DNSBody;
+    LabelCount = GET_8_BIT_U_INT(NameItr);
     while( LabelCount != 0 )
     {
         if( DNSIsLabelPointerStart(LabelCount) )
         {
             int LabelPointer = 0;
+            if( DNSBody != NULL &&
+                NameItr + 2 > DNSBody + DNSBodyLength
+                )
+            {
+                return -1;
+            }
             if( Redirected == FALSE )
             {
                 LabelsLength += 2;
@@ -30,14 +45,15 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
                 break;
             }
             LabelPointer = DNSLabelGetPointer(NameItr);
-            if( LabelPointer > DNSBodyLength )
+            if( LabelPointer >= PointerLimit )
             {
                 return -1;
             }
+            PointerLimit = LabelPointer;
             NameItr = DNSBody + DNSLabelGetPointer(NameItr);
         } else {
             if( DNSBody != NULL &&
-                NameItr + LabelCount > DNSBody + DNSBodyLength
+                NameItr + 1 + LabelCount >= DNSBody + DNSBodyLength
                 )
             {
                 return -1;
-- 
2.43.0


From 712f2934a606b1523e7d1e000615dc5ce1c7f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 02/30] fix: never hand out a record that does not lie inside
 the message

---
 dnsparser.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/dnsparser.c b/dnsparser.c
index 75b7bb9..8a360e9 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -381,6 +381,8 @@ static DnsRecordPurpose DnsSimpleParserIterator_DeterminePurpose(
 
 static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 {
+    int NameLength, LeftLength;
+
     if( i->CurrentPosition == NULL )
     {
         i->CurrentPosition = i->Parser->RawDns + DNS_HEADER_LENGTH;
@@ -427,8 +429,28 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
         return NULL;
     }
 
-    /* Update record informations */
     i->Purpose =  DnsSimpleParserIterator_DeterminePurpose(i, i->RecordPosition);
+
+    /* The fixed part of the record must be inside the message */
+    NameLength = DNSGetHostName(i->Parser->RawDns,
+                                i->Parser->RawDnsLength,
+                                i->CurrentPosition,
+                                NULL,
+                                0
+                                );
+    LeftLength = i->Parser->RawDnsLength -
+                 (i->CurrentPosition - i->Parser->RawDns);
+    if( NameLength < 0 ||
+        LeftLength - NameLength <
+            (i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10)
+      )
+    {
+        i->CurrentPosition = NULL;
+        i->RecordPosition = 0;
+        return NULL;
+    }
+
+    /* Update record informations */
     i->Type = DNSGetRecordType(i->CurrentPosition);
     i->Klass = DNSGetRecordClass(i->CurrentPosition);
 
@@ -440,6 +462,13 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
         if( i->Purpose != DNS_RECORD_PURPOSE_QUESTION )
         {
             i->DataLength = DNSGetResourceDataLength(i->CurrentPosition);
+
+            if( LeftLength - NameLength - 10 < i->DataLength )
+            {
+                i->CurrentPosition = NULL;
+                i->RecordPosition = 0;
+                return NULL;
+            }
         }
 
         return i->CurrentPosition;
-- 
2.43.0


From bfb7cbd2289d38aa0dd5ae9b1df1b431b8c46c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 03/30] fix: keep the text and cache forms of record data
 inside the record and the buffer

---
 dnsparser.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 8a360e9..c20457e 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -158,7 +158,11 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     {
         if( i.TextifyData(&i, "   %t: %v\n", BufferItr, BufferLeft) <= 0 )
         {
-            sprintf(BufferItr, "   And %d More ...\n", ANACount);
+            snprintf(BufferItr,
+                     BufferLeft + strlen(Tail),
+                     "   And %d More ...\n",
+                     ANACount
+                     );
 
             break;
         } else {
@@ -548,6 +552,11 @@ static int DnsSimpleParserIterator_Parse16Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 2 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 2 > BufferLength )
@@ -615,6 +624,11 @@ static int DnsSimpleParserIterator_Parse32Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -681,6 +695,11 @@ static int DnsSimpleParserIterator_ParseIPv4(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -745,6 +764,11 @@ static int DnsSimpleParserIterator_ParseIPv6(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 16 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 16 > BufferLength )
@@ -1044,7 +1068,7 @@ static int DNSRRGetString(const char *Data,
     {
         int n = GET_8_BIT_U_INT(DataItr);
 
-        if( n >= BufferLeft )
+        if( n >= BufferLeft || n >= Data + DataLength - DataItr )
         {
             return -1;
         }
@@ -1142,6 +1166,11 @@ static int DnsSimpleParserIterator_ParseRaw(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    if( strlen(Format) + 1 > BufferLength )
+    {
+        return -1;
+    }
+
     strcpy(Buffer, Format);
 
     if( TypeName == DNS_TYPENAME_UNKNOWN )
-- 
2.43.0


From 8886c84a62bdaf6e37e993bbb1c1c8fc84803613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 04/30] fix: copy names and addresses label by label and only
 from inside the message

---
 dnsgenerator.c | 39 +++++++++++++++++++++++++++++++++------
 dnsparser.c    | 46 ++++++++++++++++++++++++++++++++++------------
 dnsparser.h    |  2 +-
 3 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..158f990 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -603,15 +603,22 @@ static int DnsGenerator_CopyNamePart(DnsGenerator *g,
                                      DnsSimpleParserIterator *i
                                      )
 {
-    if( LEFT_LENGTH(g) < DNSCopyLable(i->Parser->RawDns,
-                                      NULL,
-                                      i->CurrentPosition)
-      )
+    int LabelLength = DNSCopyLable(i->Parser->RawDns,
+                                   i->Parser->RawDnsLength,
+                                   NULL,
+                                   i->CurrentPosition
+                                   );
+
+    if( LabelLength < 0 || LEFT_LENGTH(g) < LabelLength )
     {
         return -1;
     }
 
-    g->Itr += DNSCopyLable(i->Parser->RawDns, g->Itr, i->CurrentPosition);
+    g->Itr += DNSCopyLable(i->Parser->RawDns,
+                           i->Parser->RawDnsLength,
+                           g->Itr,
+                           i->CurrentPosition
+                           );
 
     return 0;
 }
@@ -656,10 +663,16 @@ static int DnsGenerator_CopyCName(DnsGenerator *g, DnsSimpleParserIterator *i)
     }
 
     CNameLabelLength = DNSCopyLable(i->Parser->RawDns,
+                                    i->Parser->RawDnsLength,
                                     NULL,
                                     i->RowData(i)
                                     );
 
+    if( CNameLabelLength < 0 )
+    {
+        return -7;
+    }
+
     if( DnsGenerator_16Uint(g, CNameLabelLength) != 0 )
     {
         return -5;
@@ -670,7 +683,11 @@ static int DnsGenerator_CopyCName(DnsGenerator *g, DnsSimpleParserIterator *i)
         return -6;
     }
 
-    g->Itr += DNSCopyLable(i->Parser->RawDns, g->Itr, i->RowData(i));
+    g->Itr += DNSCopyLable(i->Parser->RawDns,
+                           i->Parser->RawDnsLength,
+                           g->Itr,
+                           i->RowData(i)
+                           );
 
     SET_16_BIT_U_INT(g->NumberOfRecords,
                      GET_16_BIT_U_INT(g->NumberOfRecords) + 1
@@ -696,6 +713,11 @@ static int DnsGenerator_CopyA(DnsGenerator *g, DnsSimpleParserIterator *i)
         return 2;
     }
 
+    if( i->DataLength != 4 )
+    {
+        return 3;
+    }
+
     if( DnsGenerator_CopyNamePart(g, i) != 0 )
     {
         return -1;
@@ -754,6 +776,11 @@ static int DnsGenerator_CopyAAAA(DnsGenerator *g, DnsSimpleParserIterator *i)
         return 2;
     }
 
+    if( i->DataLength != 16 )
+    {
+        return 3;
+    }
+
     if( DnsGenerator_CopyNamePart(g, i) != 0 )
     {
         return -1;
diff --git a/dnsparser.c b/dnsparser.c
index c20457e..1184f60 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -178,35 +178,57 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     return Buffer;
 }
 
-/* Full label length returned, including terminated-zero */
-int DNSCopyLable(const char *DNSBody, char *here, const char *src)
+/* Full label length returned, including terminated-zero. Negative on failure. */
+int DNSCopyLable(const char *DNSBody, int DNSBodyLength, char *here, const char *src)
 {
     int FullLength = 0;
+    int PointerLimit = src - DNSBody;
 
-    while( TRUE )
+    while( src < DNSBody + DNSBodyLength )
     {
-        if( DNSIsLabelPointerStart(GET_8_BIT_U_INT(src)) )
+        int LabelCount = GET_8_BIT_U_INT(src);
+
+        if( DNSIsLabelPointerStart(LabelCount) )
         {
-            src = DNSBody + DNSLabelGetPointer(src);
+            int LabelPointer;
+
+            if( src + 2 > DNSBody + DNSBodyLength )
+            {
+                return -1;
+            }
+
+            LabelPointer = DNSLabelGetPointer(src);
+            if( LabelPointer >= PointerLimit )
+            {
+                return -1;
+            }
+
+            PointerLimit = LabelPointer;
+            src = DNSBody + LabelPointer;
         } else {
-            ++FullLength;
+            if( src + 1 + LabelCount > DNSBody + DNSBodyLength )
+            {
+                return -1;
+            }
+
+            FullLength += 1 + LabelCount;
 
             if( here != NULL )
             {
-                *here = *src;
-                ++here;
+                memcpy(here, src, 1 + LabelCount);
+                here += 1 + LabelCount;
             }
 
-            if( *src == '\0' )
+            if( LabelCount == 0 )
             {
-                break;
+                return FullLength;
             }
 
-            ++src;
+            src += 1 + LabelCount;
         }
     }
 
-    return FullLength;
+    return -1;
 }
 
 /**
diff --git a/dnsparser.h b/dnsparser.h
index 2d1f705..26cbba9 100755
--- a/dnsparser.h
+++ b/dnsparser.h
@@ -141,7 +141,7 @@ typedef struct _DNSHeader{
 /* Convert a DNS message to text */
 char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLength);
 
-int DNSCopyLable(const char *DNSBody, char *here, const char *src);
+int DNSCopyLable(const char *DNSBody, int DNSBodyLength, char *here, const char *src);
 
 /**
   New Implementation
-- 
2.43.0


From 06adee07652aed2dbb0adffe55708ef6d7da79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 05/30] fix: never generate a message beyond the end of its
 buffer

---
 dnsgenerator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 158f990..51def95 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -576,6 +576,11 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return -5;
     }
 
+    if( LEFT_LENGTH(g) < DataLength )
+    {
+        return -6;
+    }
+
     memcpy(g->Itr, Data, DataLength);
     g->Itr += DataLength;
 
@@ -936,6 +941,11 @@ int DnsGenerator_Init(DnsGenerator *g,
             }
         }
 
+        if( SourceLength > BufferLength )
+        {
+            return -3;
+        }
+
         memmove(g->Buffer, CopyFrom, SourceLength);
         g->Itr = g->Buffer + SourceLength;
 
-- 
2.43.0


From e3b893b539e5353a2a7d84b3b319d7f9d5d88bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:38 +0000
Subject: [PATCH 06/30] fix: do not read or rewrite addresses beyond the end of
 their record

---
 ipmisc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipmisc.c b/ipmisc.c
index ce04ef3..cad0e17 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -99,6 +99,11 @@ static int IPMisc_Process(IPMisc *m,
             continue;
         }
 
+        if( i.DataLength != DataLength )
+        {
+            continue;
+        }
+
         RowDataPos = i.RowData(&i);
         if( IpChunk_Find(&(m->c),
                          (unsigned char *)RowDataPos,
-- 
2.43.0


From 20af8264b9452abb926ed2234430de651b14eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:38 +0000
Subject: [PATCH 07/30] fix: reject messages without a question instead of
 reusing the previous one's name

---
 iheader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iheader.c b/iheader.c
index 497cd01..84aa20f 100755
--- a/iheader.c
+++ b/iheader.c
@@ -30,6 +30,7 @@ int IHeader_Fill(IHeader *h,
 {
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
+    BOOL HasQuestion = FALSE;
 
     h->Parent = NULL;
     h->RequestTcp = FALSE;
@@ -63,6 +64,7 @@ int IHeader_Fill(IHeader *h,
             StrToLower(h->Domain);
             h->HashValue = HASH(h->Domain, 0);
             h->Type = (DNSRecordType)DNSGetRecordType(DNSJumpHeader(DnsEntity));
+            HasQuestion = TRUE;
             break;
 
         case DNS_RECORD_PURPOSE_ADDITIONAL:
@@ -77,6 +79,12 @@ int IHeader_Fill(IHeader *h,
         }
     }
 
+    if( HasQuestion == FALSE )
+    {
+        /* Otherwise the name and type of the previous message would remain */
+        return -81;
+    }
+
     h->ReturnHeader = ReturnHeader;
 
     if( BackAddress != NULL )
-- 
2.43.0


From 255f11435f93537deed6bb9b794e756f2d2a0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:07 +0000
Subject: [PATCH 08/30] fix: drop messages that cannot be parsed instead of
 handling them under the previous header

---
 tcpfrontend.c |  8 ++++----
 tcpm.c        | 23 ++++++++++++++---------
 udpfrontend.c | 23 ++++++++++++++---------
 udpm.c        | 23 ++++++++++++++---------
 4 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..e1b2e88 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -89,8 +89,7 @@ TcpFrontend_Work(void *Unused)
             if( TCPLength <= LEFT_LENGTH )
             {
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
-                if( RecvState == TCPLength )
-                {
+                if( RecvState == TCPLength &&
                     IHeader_Fill(Header,
                                  FALSE,
                                  Entity,
@@ -99,8 +98,9 @@ TcpFrontend_Work(void *Unused)
                                  sock_c,
                                  ClientAddr->family,
                                  Agent
-                                 );
-
+                                 )
+                    == 0 )
+                {
                     MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
 
                     if( IsNewConnected )
diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..c331b42 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -674,15 +674,20 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         State,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             State,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                WARNING("Invalid data received from %s.\n", m->ServiceName);
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..28f44de 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP client %s.\n", Agent);
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..1cc03f7 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,20 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            WARNING("Invalid data received from %s.\n", m->ServiceName);
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From b71023f22ee3325bcbd9af6bb79730aa8ee41a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:07 +0000
Subject: [PATCH 09/30] fix: use the whole length of a TCP response received in
 several segments

---
 tcpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index c331b42..acd3412 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -677,7 +677,7 @@ TcpM_Works(TcpM *m)
             if( IHeader_Fill(Header,
                              FALSE,
                              Entity,
-                             State,
+                             PartialData - Entity,
                              NULL,
                              INVALID_SOCKET,
                              AF_UNSPEC,
-- 
2.43.0


From b32ed40426d9c48f305ee88dabb8b6c15627a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:07 +0000
Subject: [PATCH 10/30] fix: continue a partial TCP send where it stopped
 instead of resending from the start

---
 tcpm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index acd3412..81e9d55 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -247,10 +247,20 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 {
     time_t t = time(NULL);
+    int Sent = 0;
 
-    while( send(Sock, Start, Length, MSG_NOSIGNAL) != Length )
+    while( Sent < Length )
     {
-        int LastError = GET_LAST_ERROR();
+        int LastError;
+        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
+
+        if( State > 0 )
+        {
+            Sent += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
                 time(NULL) - t > TIMEOUT_ms_SEND / 1000
-- 
2.43.0


From 9af4b60ac12a9ded9d69ed06dc94729bd40a2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:00 +0000
Subject: [PATCH 11/30] fix: match a response to the pending query by
 identifier, name and type under a total order

---
 mcontext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..ca6c3cd 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -124,8 +124,13 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     if( Id_1 != Id_2 )
     {
         return Id_1 - Id_2;
+    } else if( One->HashValue != Two->HashValue ){
+        /* A subtraction would overflow, then the order would not be transitive */
+        return One->HashValue < Two->HashValue ? -1 : 1;
+    } else if( One->Type != Two->Type ){
+        return One->Type < Two->Type ? -1 : 1;
     } else {
-        return One->HashValue - Two->HashValue;
+        return strcmp(One->Domain, Two->Domain);
     }
 }
 
-- 
2.43.0


From b14a95ed0aba02fb39f4ff760e11ee8569b626d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:00 +0000
Subject: [PATCH 12/30] fix: do not loop forever adding EDNS to a query that
 already has additional records

---
 iheader.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/iheader.c b/iheader.c
index 84aa20f..1dfaf61 100755
--- a/iheader.c
+++ b/iheader.c
@@ -140,9 +140,16 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    /* Additional records, but no OPT, may already be there */
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
-    g.EDns(&g, 1280);
+    if( g.EDns(&g, 1280) != 0 )
+    {
+        return -136;
+    }
 
     h->EntityLength = g.Length(&g);
     h->EDNSEnabled = TRUE;
-- 
2.43.0


From 573a460c64c49c595933f17f7b3b4065391ed9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:36 +0000
Subject: [PATCH 13/30] fix: number the records of a message without a question
 from one as well

---
 dnsparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 1184f60..d154a98 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -1389,19 +1389,19 @@ int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p)
 
     i->AnswerFirst = AnswerCount == 0 ?
                      0 :
-                     i->QuestionFirst + QuestionCount;
+                     1 + QuestionCount;
     i->AnswerLast = i->AnswerFirst + AnswerCount - 1;
 
     i->NameServerFirst = NameServerCount == 0 ?
                          0 :
-                         i->QuestionFirst +
+                         1 +
                              QuestionCount +
                              AnswerCount;
     i->NameServerLast = i->NameServerFirst + NameServerCount - 1;
 
     i->AdditionalFirst = AdditionalCount == 0 ?
                          0 :
-                         i->QuestionFirst +
+                         1 +
                              QuestionCount +
                              AnswerCount +
                              NameServerCount;
-- 
2.43.0


From 914b1867d261f5717e2cc9b500e103e05a5dad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 14/30] fix: serve cached PTR and NS records under their own
 type

---
 dnsgenerator.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 51def95..df2c578 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -268,11 +268,13 @@ static int DnsGenerator_Question(DnsGenerator *g,
     return 0;
 }
 
-static int DnsGenerator_CName(DnsGenerator *g,
-                              const char *Name,
-                              const char *CName,
-                              int Ttl
-                              )
+/* For the types whose data is nothing but a name */
+static int DnsGenerator_NameData(DnsGenerator *g,
+                                 const char *Name,
+                                 DNSRecordType Type,
+                                 const char *CName,
+                                 int Ttl
+                                 )
 {
     DnsRecordPurpose p = DnsGenerator_CurrentPurpose(g);
 
@@ -289,7 +291,7 @@ static int DnsGenerator_CName(DnsGenerator *g,
         return -1;
     }
 
-    if( DnsGenerator_16Uint(g, DNS_TYPE_CNAME) != 0 )
+    if( DnsGenerator_16Uint(g, Type) != 0 )
     {
         return -2;
     }
@@ -321,6 +323,15 @@ static int DnsGenerator_CName(DnsGenerator *g,
     return 0;
 }
 
+static int DnsGenerator_CName(DnsGenerator *g,
+                              const char *Name,
+                              const char *CName,
+                              int Ttl
+                              )
+{
+    return DnsGenerator_NameData(g, Name, DNS_TYPE_CNAME, CName, Ttl);
+}
+
 static int DnsGenerator_MX(DnsGenerator *g,
                            const char *Name,
                            int Preference,
@@ -886,7 +897,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
     case DNS_TYPE_CNAME:
     case DNS_TYPE_PTR:
     case DNS_TYPE_NS:
-        Ret = g->CName(g, Name, Data, Ttl);
+        Ret = DnsGenerator_NameData(g, Name, Type, Data, Ttl);
         break;
 
     case DNS_TYPE_MX:
-- 
2.43.0


From 1eacf5acf12d01603017c66cc42cbad3a828f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 15/30] fix: do not cache a record whose data lacks some of its
 fields

---
 dnsparser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnsparser.c b/dnsparser.c
index d154a98..9999147 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -1023,6 +1023,12 @@ static int DnsSimpleParserIterator_ParseData(DnsSimpleParserIterator *i,
         }
     }
 
+    if( Format == NULL && pp[j].Preface != NULL )
+    {
+        /* Incomplete data must not be cached */
+        return -1;
+    }
+
     return BufferItr - Buffer;
 }
 
-- 
2.43.0


From 9033b6de7e3393a37e2fb3a3861fb2f0f1d1320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 16/30] fix: look up the cache control rule of a record by its
 name only

---
 dnscache.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..6d5279f 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -469,6 +469,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 
     /* Iterator of `Buffer' */
     char            *BufferItr;
+    char            *NameEnd;
 
     const CtrlContent   *TtlContent;
 
@@ -483,6 +484,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
+    NameEnd = BufferItr;
     if( BufferItr >= Buffer + sizeof(Buffer) )
     {
         return -2;
@@ -540,7 +542,8 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
         /* Node with subscript `Subscript' */
         Cht_Node    *Node;
 
-        /* Detemine which TTL scheme will be used */
+        /* Detemine which TTL scheme will be used, by the name only */
+        *NameEnd = '\0';
         if( InfectedTtlContent != NULL )
         {
             switch( InfectedTtlContent->Infection )
@@ -565,6 +568,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
         } else {
             TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
         }
+        *NameEnd = ' ';
 
         if( TtlContent != NULL )
         {
-- 
2.43.0


From 6453c8420a90cf1224dcea0d61555934391fd0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 17/30] fix: do not match rules against what lies behind an
 empty (root) domain

---
 stringchunk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringchunk.c b/stringchunk.c
index ddc6e8c..0024b79 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -390,7 +390,8 @@ BOOL StringChunk_Domain_Match_NoWildCard(StringChunk    *dl,
         return TRUE;
     }
 
-    Domain = strchr(Domain + 1, '.');
+    /* The root domain is an empty string */
+    Domain = *Domain == '\0' ? NULL : strchr(Domain + 1, '.');
 
     while( Domain != NULL )
     {
-- 
2.43.0


From 32945b4a69362599b58d1a129d248a11c1d5b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 18/30] fix: keep the last string when a list is appended to
 behind an empty one

Searching backwards for the beginning of the last string stopped before the
first byte of the block, so with an empty string there (a value beginning with
a delimiter) the last string was replaced by the appended text.
---
 stringlist.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/stringlist.c b/stringlist.c
index a3445db..614fde4 100755
--- a/stringlist.c
+++ b/stringlist.c
@@ -105,18 +105,11 @@ static int StringList_AppendLast(StringList *s,
     }
 
     Used = i.CurrentBlockUsed(&i);
-    for( l = b + Used - 2; l > b; --l )
+    /* Back from the terminated-0 of the last string to its beginning */
+    l = Used > 0 ? b + Used - 1 : b;
+    while( l > b && *(l - 1) != '\0' )
     {
-        if( *l == '\0' )
-        {
-            ++l;
-            break;
-        }
-    }
-
-    if( l <= b )
-    {
-        l = b;
+        --l;
     }
 
     StrLength = strlen(str) + 1; /* Including terminated-0 */
-- 
2.43.0


From 58ef7663914af366800344a4b60d776c1ac3a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 19/30] fix: the rest of a truncated line is not the next line,
 nor a comment to its end

When nothing but a line end, spaces or a comment was left of a line longer
than the buffer, reading its rest returned the next line instead, which was
skipped or appended to the value.  Spaces at the boundary were lost, so words
were joined.  A line was lost if the file ended in its long comment, and a
comment after ';' was kept when it held a '#'.  The rest of a long line whose
option is unknown or not a string was read as a line of its own.
---
 readconfig.c | 16 +++++++++-
 readline.c   | 89 +++++++++++++++++++++++++++-------------------------
 readline.h   |  3 ++
 3 files changed, 65 insertions(+), 43 deletions(-)

diff --git a/readconfig.c b/readconfig.c
index e84d56e..392bdb2 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -322,7 +322,7 @@ static void ParseString(ConfigOption *Option,
 
     while( ReadStatus != READ_DONE ){
 
-        ReadStatus = ReadLine(fp, Buffer, BufferLength);
+        ReadStatus = ReadLine_Rest(fp, Buffer, BufferLength);
         if( ReadStatus == READ_FAILED_OR_END )
             break;
 
@@ -380,7 +380,14 @@ int ConfigRead(ConfigFileInfo *Info)
 
         ValuePos = SplitNameAndValue(Buffer, " \t=");
         if( ValuePos == NULL )
+        {
+            if( ReadStatus == READ_TRUNCATED )
+            {
+                ReadLine_GoToNextLine(Info->fp);
+            }
+
             continue;
+        }
 
         KeyName = Buffer;
 
@@ -392,6 +399,13 @@ int ConfigRead(ConfigFileInfo *Info)
                                   &StringDelimiters
                                   );
 
+        if( ReadStatus == READ_TRUNCATED &&
+            (Option == NULL || Option->Type != TYPE_STRING)
+            )
+        {
+            ReadLine_GoToNextLine(Info->fp);
+        }
+
         if( Option == NULL )
         {
             continue;
diff --git a/readline.c b/readline.c
index 2fd69aa..85b936e 100755
--- a/readline.c
+++ b/readline.c
@@ -9,8 +9,8 @@ static BOOL ClearAnnotation(char *str, char mark)
 
     if( pos != NULL )
     {
-        for(--pos; pos >= str && isspace(*pos); --pos);
-        *(pos + 1) = '\0';
+        for(; pos > str && isspace(*(pos - 1)); --pos);
+        *pos = '\0';
         return TRUE;
     } else {
         return FALSE;
@@ -54,17 +54,21 @@ static void EliminateHeadSpace(char *str)
 
 static void EliminateFootSpace(char *str)
 {
-    char *End = str + strlen(str) - 1;
-
-    if( End >= str )
-    {
-        for(; isspace(*End) && End >= str; --End);
-        *(End + 1) = '\0';
-    }
+    char *End = str + strlen(str);
 
+    for(; End > str && isspace(*(End - 1)); --End);
+    *End = '\0';
 }
 
-ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+/* Read a line, or what is left of a line that was truncated.
+ * The rest of a line may be empty, and no other line takes its place then.
+ * The spaces it begins with are inside the line.
+ */
+static ReadLineStatus ReadPartOfLine(FILE *fp,
+                                     char *Buffer,
+                                     int BufferSize,
+                                     BOOL Rest
+                                     )
 {
     BOOL    ReachedEnd;
 
@@ -76,47 +80,48 @@ START:
         ReachedEnd = ReachedLineEnd(fp, Buffer);
     }
 
-    if( (ClearAnnotation(Buffer, '#') || ClearAnnotation(Buffer, ';')) != FALSE )
+    if( (ClearAnnotation(Buffer, '#') | ClearAnnotation(Buffer, ';')) != FALSE )
     {
-        if( ReachedEnd == FALSE )
+        char BlackHole[128];
+
+        while( ReachedEnd == FALSE )
         {
-            char BlackHole[128];
-            do
+            if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
             {
-                if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
-                {
-                    return READ_FAILED_OR_END;
-                }
-                ReachedEnd = ReachedLineEnd(fp, BlackHole);
-            }while( ReachedEnd == FALSE );
+                break;
+            }
+            ReachedEnd = ReachedLineEnd(fp, BlackHole);
         }
+    } else if( ReachedEnd == FALSE ) {
+        return READ_TRUNCATED;
+    }
 
-        EliminateFootSpace(Buffer);
-        EliminateHeadSpace(Buffer);
-
-        if( *Buffer == '\0' )
-        {
-            goto START;
-        } else {
-            return READ_DONE;
-        }
+    EliminateCRLF(Buffer);
+    EliminateFootSpace(Buffer);
 
+    if( Rest )
+    {
+        return READ_DONE;
     }
 
-    if( ReachedEnd == TRUE )
+    EliminateHeadSpace(Buffer);
+
+    if( *Buffer == '\0' )
     {
-        EliminateCRLF(Buffer);
-        EliminateFootSpace(Buffer);
-        EliminateHeadSpace(Buffer);
-        if( *Buffer == '\0' )
-        {
-            goto START;
-        } else {
-            return READ_DONE;
-        }
-    } else {
-        return READ_TRUNCATED;
+        goto START;
     }
+
+    return READ_DONE;
+}
+
+ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+{
+    return ReadPartOfLine(fp, Buffer, BufferSize, FALSE);
+}
+
+ReadLineStatus ReadLine_Rest(FILE *fp, char *Buffer, int BufferSize)
+{
+    return ReadPartOfLine(fp, Buffer, BufferSize, TRUE);
 }
 
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
@@ -126,7 +131,7 @@ ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 
     do
     {
-        Status = ReadLine(fp, Buffer, sizeof(Buffer));
+        Status = ReadLine_Rest(fp, Buffer, sizeof(Buffer));
     }
     while( Status == READ_TRUNCATED );
 
diff --git a/readline.h b/readline.h
index 261fc89..47077d2 100755
--- a/readline.h
+++ b/readline.h
@@ -12,6 +12,9 @@ typedef enum _ReadLineStatus
 
 ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize);
 
+/* What is left of a line that was READ_TRUNCATED */
+ReadLineStatus ReadLine_Rest(FILE *fp, char *Buffer, int BufferSize);
+
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp);
 
 #endif /* READLINE_H_INCLUDED */
-- 
2.43.0


From 683f9d373b0793aecbd61645ec5ede6f8f661463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:46 +0000
Subject: [PATCH 20/30] fix: do not generate names with empty or overlong
 labels

A label longer than 63 was written as a compression pointer or an unknown label
type, and an empty label (a trailing or doubled dot in a hosts file) ended the
name early, so everything behind it in the message was damaged.
---
 dnsgenerator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index df2c578..c033fa5 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -13,6 +13,10 @@ char *DNSLabelizedName(__inout char *Origin, __in size_t OriginSpaceLength){
     if( OriginSpaceLength < strlen(Origin) + 2 )
         return NULL;
 
+    /* A domain is no longer than 255 when it is encoded */
+    if( strlen(Origin) + 2 > 255 )
+        return NULL;
+
     memmove(Origin + 1, Origin, strlen(Origin) + 1);
 
     *LabelLength = 0;
@@ -22,11 +26,18 @@ char *DNSLabelizedName(__inout char *Origin, __in size_t OriginSpaceLength){
         if(*Origin == 0) break;
         if(*Origin != '.') ++(*LabelLength);
         else {
+            /* An empty label would end the domain, a longer one is a pointer */
+            if( *LabelLength == 0 || *LabelLength > 63 )
+                return NULL;
+
             LabelLength = (unsigned char *)Origin;
             *LabelLength = 0;
         }
     }
 
+    if( *LabelLength == 0 || *LabelLength > 63 )
+        return NULL;
+
     return Origin + 1;
 }
 
-- 
2.43.0


From 0928468eb155d0a08611563dd7817903ca13fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:58 +0000
Subject: [PATCH 21/30] fix: do not copy a cached CNAME target longer than a
 domain can be

The target of a received CNAME may decode to more than 253 characters by
compression; it was copied from the cache into a buffer of 254.
---
 dnscache.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 6d5279f..6e00902 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -759,6 +759,7 @@ static int DNSCache_GetRawRecordsFromCache(__in    const char *Name,
     return Ret;
 }
 
+/* `Buffer' is at least (253 + 1) bytes */
 static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
                                             __out char *Buffer,
                                             __in time_t CurrentTime
@@ -766,6 +767,7 @@ static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
 {
     char Name_Type_Class[253 + 1 + 4 + 1 + 4 + 1];
     Cht_Node *Node = NULL;
+    const char *CName;
     int KeyLength = snprintf(Name_Type_Class,
                              sizeof(Name_Type_Class),
                              "%s %X %X",
@@ -800,7 +802,14 @@ static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
         }
 
         Node = iNode;
-        strcpy(Buffer, MapStart + Node->Offset + 1 + strlen(Name_Type_Class) + 1);
+
+        CName = MapStart + Node->Offset + 1 + KeyLength + 1;
+        if( strlen(CName) > 253 )
+        {
+            return NULL;
+        }
+
+        strcpy(Buffer, CName);
 
     } while( TRUE );
 
-- 
2.43.0


From 03aaf161347fe2cd7a3768cec7f0a14c5cf9314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 22/30] fix: cache a record whose data is only the beginning of
 a cached one

It was taken for the cached one, so answers from the cache lacked it.
---
 dnscache.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 6e00902..abf9b7e 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -473,6 +473,8 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 
     const CtrlContent   *TtlContent;
 
+    Cht_Node        *Same = NULL;
+
     /* Assign start byte of the cache */
     Buffer[0] = CACHE_START;
 
@@ -529,7 +531,13 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
     /* Add the cache item to the main cache zone below */
 
     /* Determine whether the cache item has existed in the main cache zone */
-    if(DNSCache_FindFromCache(Item, BufferItr - Item, NULL, CurrentTime) == NULL)
+    do
+    {
+        Same = DNSCache_FindFromCache(Item, BufferItr - Item, Same, CurrentTime);
+        /* Another one may begin with the same data */
+    } while( Same != NULL && Same->UsedLength != BufferItr - Buffer );
+
+    if( Same == NULL )
     {
         /* If not, add it */
         DEBUG("Add cache: %s\n", Item);
-- 
2.43.0


From e290d5a4802c62f95b73b6f96277a05fa589db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 23/30] fix: with IgnoreTTL, parallel caching does not take
 elapsed time off lifetimes

---
 dnscache.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index abf9b7e..7f7d5d2 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -438,7 +438,11 @@ static uint32_t DNSCache_CacheMinTTL(const char *Content, size_t Length, uint32_
     /* Get the smallest, in case of not equal. */
     while( (Node = DNSCache_FindFromCache(Content, Length, Node, CurrentTime)) != NULL )
     {
-        uint32_t TTL = Node->TTL - (CurrentTime - Node->TimeAdded);
+        uint32_t TTL = Node->TTL;
+        if( IgnoreTTL == FALSE )
+        {
+            TTL -= CurrentTime - Node->TimeAdded;
+        }
         if( RecordTTL > TTL )
         {
             RecordTTL = TTL;
-- 
2.43.0


From 1cc6dcebf1790af53f011f08a2f07000bd2ec329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 24/30] fix: do not free parts of the cache memory on exit

---
 cacheht.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cacheht.c b/cacheht.c
index acca20f..b8f68da 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -421,7 +421,10 @@ Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const
 
 void CacheHT_Free(CacheHT *h)
 {
-    Array_Free(&(h->NodeChunk));
-    Array_Free(&(h->Slots));
+    /* Both lie inside the memory given to `CacheHT_Init' */
+    h->NodeChunk.Data = NULL;
+    h->NodeChunk.Used = 0;
+    h->Slots.Data = NULL;
+    h->Slots.Used = 0;
     h->Free2DList = -1;
 }
-- 
2.43.0


From 0495eda1f353b1cbf116cab2096d57e8a8cc2038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 25/30] fix: reject cache control rules that are cut short

---
 cachettlcrtl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 8b0753d..f7844d4 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -27,13 +27,17 @@ int CacheTtlCrtl_Add(CacheTtlCtrl *c, const char *Domain, int State, uint32_t Co
 
 int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule)
 {
-    char    Domain[128], Cmd[16], Arg[64];
+    char    Domain[128], Cmd[16], Arg[64] = "";
     int     State;
     uint32_t Coefficient = 0;
     uint32_t Increment = 0;
     int     Infection = TTL_CTRL_INFECTION_AGGRESSIVLY;
 
-    sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg);
+    if( sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg) < 2 )
+    {
+        ERRORMSG("Invalid `CacheControl' option : %s\n", Rule);
+        return -1;
+    }
 
     if( Cmd[0] == '$' )
     {
-- 
2.43.0


From af3fa144e361161ea0881a8bdb157deb508e408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 26/30] fix: an indented line is an option as well if it is
 long

---
 readline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readline.c b/readline.c
index 85b936e..42bb0b4 100755
--- a/readline.c
+++ b/readline.c
@@ -93,6 +93,10 @@ START:
             ReachedEnd = ReachedLineEnd(fp, BlackHole);
         }
     } else if( ReachedEnd == FALSE ) {
+        if( Rest == FALSE )
+        {
+            EliminateHeadSpace(Buffer);
+        }
         return READ_TRUNCATED;
     }
 
-- 
2.43.0


From 7a7a89a91d4c66a12df683bff548df0ae962a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 27/30] fix: do not add an undefined number when an option's
 value is not a number

---
 readconfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readconfig.c b/readconfig.c
index 392bdb2..4211fd3 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -265,7 +265,7 @@ static void ParseInt32(ConfigOption *Option, const char *Value)
 
         case STRATEGY_APPEND:
             {
-                int32_t SpecifiedValue;
+                int32_t SpecifiedValue = 0;
 
                 sscanf(Value, "%d", &SpecifiedValue);
                 Option->Holder.INT32 += SpecifiedValue;
-- 
2.43.0


From 127f33335e9ad37fcf016c56e5b08c83e5346303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 28/30] fix: find the narrowest of IP ranges that contain one
 another

---
 ipchunk.c | 33 ++++++++++++++++++++++++---------
 ipchunk.h |  1 +
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/ipchunk.c b/ipchunk.c
index ee4396c..dfbc445 100755
--- a/ipchunk.c
+++ b/ipchunk.c
@@ -113,7 +113,7 @@ int IpSet_Parse(const char *s, const char *p, IpSet *ipSet)
         n = atoi(p);
         if( n < 0 )
         {
-            n = -1;
+            return -1;
         } else if( n > L ) {
             n = L;
         }
@@ -170,7 +170,13 @@ static int Contain(IpElement *New, IpElement *Elm)
         int prefixBitsElm = ipSetElm->PrefixBits;
         int ret = 0;
 
-        /* 2nd: prefix value */
+        /* 2nd: prefix bits */
+        if( prefixBitsNew != prefixBitsElm )
+        {
+            return prefixBitsNew - prefixBitsElm;
+        }
+
+        /* 3rd: prefix value */
         if( BitsElm == 32 )
         {
             bn += 12;
@@ -194,12 +200,6 @@ static int Contain(IpElement *New, IpElement *Elm)
             ret = memcmp(&u32New, &u32Elm, 4);
         }
 
-        /* 3rd: prefix bits */
-        if( ret == 0 && prefixBitsNew < prefixBitsElm)
-        {
-            ret = 1;
-        }
-
         /* 4th: zone */
         if( ret == 0 )
         {
@@ -229,6 +229,8 @@ void IpChunk_Free(IpChunk *ic)
 
 int IpChunk_Init(IpChunk *ic)
 {
+    memset(ic->CidrBits, 0, sizeof(ic->CidrBits));
+
     if( Bst_Init(&(ic->AddrChunk), sizeof(IpElement), (CompareFunc)Contain) != 0 )
     {
         return -1;
@@ -306,6 +308,7 @@ int IpChunk_Add(IpChunk *ic,
         elm = ic->AddrChunk.Add(&(ic->AddrChunk), &New);
     } else {
         elm = ic->CidrChunk.Add(&(ic->CidrChunk), &New);
+        ic->CidrBits[New.IpSet.PrefixBits] = 1;
     }
 
     return elm == NULL;
@@ -341,7 +344,19 @@ BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const
     Result = ic->AddrChunk.Search(&(ic->AddrChunk), &Key, NULL);
     if( Result == NULL )
     {
-        Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
+        /* Ranges may be nested, so the narrowest first */
+        int Bits = Key.IpSet.PrefixBits - 1;
+
+        for( ; Result == NULL && Bits >= 0; --Bits )
+        {
+            if( ic->CidrBits[Bits] == 0 )
+            {
+                continue;
+            }
+
+            Key.IpSet.PrefixBits = Bits;
+            Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
+        }
     }
 
     if( Result == NULL )
diff --git a/ipchunk.h b/ipchunk.h
index 725a5a4..53c4b4d 100755
--- a/ipchunk.h
+++ b/ipchunk.h
@@ -40,6 +40,7 @@ typedef struct _IpElement {
 typedef struct _IpChunk{
     Bst             AddrChunk;
     Bst             CidrChunk;
+    char            CidrBits[129]; /* Prefix lengths in use */
     StableBuffer    Datas;
     StableBuffer    Extra;
 } IpChunk;
-- 
2.43.0


From 72da60ae018d1d39128bc5fe3993319b6e202dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 29/30] fix: text that is no IP address or port is not taken as
 one

---
 addresslist.c |  4 ++--
 ipmisc.c      | 12 +++++++++---
 utils.c       | 25 ++++++++++++++++++-------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/addresslist.c b/addresslist.c
index f19643b..38d9f8f 100755
--- a/addresslist.c
+++ b/addresslist.c
@@ -52,7 +52,7 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
         case AF_INET6:
             {
                 char        Addr[LENGTH_OF_IPV6_ADDRESS_ASCII + 1] = {0};
-                in_port_t   Port;
+                in_port_t   Port = DefaultPort;
                 const char  *PortPos;
 
                 memset(Addr, 0, sizeof(Addr));
@@ -86,7 +86,7 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
         case AF_INET:
             {
                 char        Addr[LENGTH_OF_IPV4_ADDRESS_ASCII + 1] = {0};
-                in_port_t   Port;
+                in_port_t   Port = DefaultPort;
                 const char  *PortPos;
 
                 memset(Addr, 0, sizeof(Addr));
diff --git a/ipmisc.c b/ipmisc.c
index cad0e17..1bc1363 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -26,7 +26,10 @@ static int IPMisc_AddSubstituteFromString(IPMisc *m,
     {   /* IPv6 */
         char    IpSubstituter[16];
 
-        IPv6AddressToNum(Substituter, IpSubstituter);
+        if( IPv6AddressToNum(Substituter, IpSubstituter) != 16 )
+        {
+            return -1;
+        }
 
         return IpChunk_Add(&(m->c),
                               Ip,
@@ -38,7 +41,10 @@ static int IPMisc_AddSubstituteFromString(IPMisc *m,
         /* IPv4 */
         char    IpSubstituter[4];
 
-        IPv4AddressToNum(Substituter, IpSubstituter);
+        if( IPv4AddressToNum(Substituter, IpSubstituter) != 4 )
+        {
+            return -1;
+        }
 
         return IpChunk_Add(&(m->c),
                              Ip,
@@ -355,7 +361,7 @@ static int IpMiscMapping_Load(void)
     return 0;
 
 EXIT_2:
-    IPMisc_Free(CurrIpMiscMapping);
+    IPMisc_Free(IpMiscMapping);
 EXIT_1:
     SafeFree(IpMiscMapping);
 
diff --git a/utils.c b/utils.c
index a549682..b354180 100755
--- a/utils.c
+++ b/utils.c
@@ -443,6 +443,7 @@ EXIT_1:
 int IPv6AddressToNum(const char *asc, void *Buffer)
 {
     int16_t *buf_s  =   (int16_t *)Buffer;
+    int16_t *head;
     const char  *itr;
 
     memset(Buffer, 0, 16);
@@ -452,9 +453,12 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
     if( strstr(asc, "::") == NULL )
     {   /* full format */
         uint32_t a[8];
-        sscanf(asc, "%x:%x:%x:%x:%x:%x:%x:%x",
-                a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7
-                );
+        if( sscanf(asc, "%x:%x:%x:%x:%x:%x:%x:%x",
+                    a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7
+                    ) != 8 )
+        {
+            return 0;
+        }
         SET_16_BIT_U_INT(buf_s, a[0]);
         SET_16_BIT_U_INT(buf_s + 1, a[1]);
         SET_16_BIT_U_INT(buf_s + 2, a[2]);
@@ -469,7 +473,7 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
         if( asc[2] == '\0' || isspace(asc[2]) )
         {
             memset(Buffer, 0, 16);
-            return 0;
+            return 16;
         }
 
         while(1)
@@ -485,11 +489,15 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
                 break;
             }
 
-            sscanf(itr, "%x:", &a);
+            if( buf_s == (int16_t *)Buffer + 8 || sscanf(itr, "%x:", &a) != 1 )
+            {
+                return 0;
+            }
             SET_16_BIT_U_INT(buf_s, a);
             ++buf_s;
             ++asc;
         }
+        head = buf_s;
         buf_s = (int16_t *)Buffer + 7;
         for(; *asc != '\0'; ++asc);
         while(1)
@@ -500,7 +508,10 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
             if( *(itr + 1) == '\0' )
                 break;
 
-            sscanf(itr + 1, "%x", &a);
+            if( buf_s < head || sscanf(itr + 1, "%x", &a) != 1 )
+            {
+                return 0;
+            }
             SET_16_BIT_U_INT(buf_s, a);
             --buf_s;
             asc = itr - 1;
@@ -519,7 +530,7 @@ int IPv4AddressToNum(const char *asc, void *Buffer)
 
     unsigned char *BufferInByte = (unsigned char *)Buffer;
 
-    int Components[4];
+    int Components[4] = {0, 0, 0, 0};
 
     ret = sscanf(asc, "%d.%d.%d.%d", Components, Components + 1, Components + 2, Components + 3);
     BufferInByte[0] = Components[0];
-- 
2.43.0


From f26a231436ac3946a852ae509667ac3911f7e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 30/30] fix: a disabled type that is not a number does not
 disable an arbitrary type

---
 filter.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filter.c b/filter.c
index 26d56c4..a50bf9f 100755
--- a/filter.c
+++ b/filter.c
@@ -193,8 +193,10 @@ static int FilterType_Init(ConfigFileInfo *ConfigInfo)
     OneTypePendingToAdd_Str = sli.Next(&sli);
     while( OneTypePendingToAdd_Str != NULL )
     {
-        sscanf(OneTypePendingToAdd_Str, "%d", &OneTypePendingToAdd);
-        DisabledTypes->Add(DisabledTypes, &OneTypePendingToAdd);
+        if( sscanf(OneTypePendingToAdd_Str, "%d", &OneTypePendingToAdd) == 1 )
+        {
+            DisabledTypes->Add(DisabledTypes, &OneTypePendingToAdd);
+        }
 
         OneTypePendingToAdd_Str = sli.Next(&sli);
     }
-- 
2.43.0

