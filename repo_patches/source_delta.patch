From d016e79de4322db20e4b9f990c7392992c93fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 01/24] fix: RFC2251 UnbindRequest, DelRequest and
 AbandonRequest syntax

---
 pyasn1_modules/rfc2251.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..12a4a7d 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
@@ -418,9 +418,9 @@ class AddResponse(LDAPResult):
     )
 
 
-class DelRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 10)
+class DelRequest(LDAPDN):
+    tagSet = LDAPDN.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 10)
     )
 
 
@@ -466,9 +466,15 @@ class CompareResponse(LDAPResult):
     )
 
 
-class AbandonRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 16)
+class MessageID(univ.Integer):
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
+        0, maxInt
+    )
+
+
+class AbandonRequest(MessageID):
+    tagSet = MessageID.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 16)
     )
 
 
@@ -523,12 +529,6 @@ class ExtendedResponse(univ.Sequence):
     )
 
 
-class MessageID(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
-        0, maxInt
-    )
-
-
 class LDAPMessage(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('messageID', MessageID()),
-- 
2.43.0


From 46ac519fa1a43cd90a2edbca0991d7dd5bc3049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/24] fix: RFC1157 TrapPDU lacks its [4] IMPLICIT tag

---
 pyasn1_modules/rfc1157.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc1157.py b/pyasn1_modules/rfc1157.py
index df49e48..e44eed3 100644
--- a/pyasn1_modules/rfc1157.py
+++ b/pyasn1_modules/rfc1157.py
@@ -95,6 +95,9 @@ class SetRequestPDU(_RequestBase):
 
 
 class TrapPDU(univ.Sequence):
+    tagSet = univ.Sequence.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
+    )
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('enterprise', univ.ObjectIdentifier()),
         namedtype.NamedType('agent-addr', rfc1155.NetworkAddress()),
-- 
2.43.0


From 065cdaf414a02e4593a5a8f5d5d2109a8de3bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 03/24] fix: RFC2459 size constraints on INTEGER types make
 them unusable

---
 pyasn1_modules/rfc2459.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..1cce106 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
@@ -774,7 +774,7 @@ id_ce_cRLNumber = univ.ObjectIdentifier('2.5.29.20')
 
 
 class CRLNumber(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 class BaseCRLNumber(CRLNumber):
@@ -815,7 +815,7 @@ class ReasonFlags(univ.BitString):
 
 
 class SkipCerts(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 id_ce_policyConstraints = univ.ObjectIdentifier('2.5.29.36')
-- 
2.43.0


From 9f530a2087816ec59ad6d7a9739a8eb8338d514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 04/24] fix: RFC2459 optionality of DomainParameters,
 PresentationAddress, IssuingDistributionPoint

---
 pyasn1_modules/rfc2459.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 1cce106..1794e6e 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -326,7 +326,7 @@ class DomainParameters(univ.Sequence):
         namedtype.NamedType('p', univ.Integer()),
         namedtype.NamedType('g', univ.Integer()),
         namedtype.NamedType('q', univ.Integer()),
-        namedtype.NamedType('j', univ.Integer()),
+        namedtype.OptionalNamedType('j', univ.Integer()),
         namedtype.OptionalNamedType('validationParms', ValidationParms())
     )
 
@@ -383,7 +383,7 @@ class PresentationAddress(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
         namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
-        namedtype.OptionalNamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
+        namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3),
             subtypeSpec=constraint.ValueSizeConstraint(1, MAX))),
     )
@@ -1135,13 +1135,13 @@ class IssuingDistributionPoint(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('distributionPoint', DistributionPointName().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
-        namedtype.NamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
         namedtype.OptionalNamedType('onlySomeReasons', ReasonFlags().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.NamedType('indirectCRL', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('indirectCRL', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 4)))
     )
 
-- 
2.43.0


From bbbd8a253ce4e90389111632c043a7e4e3822264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 05/24] fix: RFC2459 TeletexDomainDefinedAttribute.value lacks
 its SIZE

---
 pyasn1_modules/rfc2459.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 1794e6e..6763de1 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -351,7 +351,8 @@ class TeletexDomainDefinedAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('type', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_type_length))),
-        namedtype.NamedType('value', char.TeletexString())
+        namedtype.NamedType('value', char.TeletexString().subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_value_length)))
     )
 
 
-- 
2.43.0


From f4e88a40a5129ddf8a02ab03d881f7551808d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 06/24] fix: RFC2315 AttributeValueAssertion open type names a
 component that does not exist

---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..b0cb5cd 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From 9de3f894799c0e1f9312104942be1c75541d529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 07/24] fix: RFC2315 encryptedContent is ciphertext, not an
 open type

---
 pyasn1_modules/rfc2315.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index b0cb5cd..7eb62fe 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -61,8 +61,7 @@ class EncryptedContentInfo(univ.Sequence):
         namedtype.OptionalNamedType(
             'encryptedContent', EncryptedContent().subtype(
                 implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0)
-            ),
-            openType=opentype.OpenType('contentType', contentTypeMap)
+            )
         )
     )
 
-- 
2.43.0


From 2d4feb154a661a8418a42645a880fd5eb8ba4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 08/24] fix: RFC2437 RSAES-OAEP-params components are
 explicitly tagged and can be absent

---
 pyasn1_modules/rfc2437.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 88641cf..943dafc 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -60,10 +60,10 @@ class RSAPublicKey(univ.Sequence):
 # XXX defaults not set
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
-        namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+        namedtype.OptionalNamedType('hashFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
+        namedtype.OptionalNamedType('maskGenFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
+        namedtype.OptionalNamedType('pSourceFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
     )
-- 
2.43.0


From 696c0a108a5f22638b8f3a549b906f913cb21edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 09/24] fix: RFC2511 GeneralName is the RFC2459 GeneralName

---
 pyasn1_modules/rfc2511.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pyasn1_modules/rfc2511.py b/pyasn1_modules/rfc2511.py
index 8935cda..ce161b1 100644
--- a/pyasn1_modules/rfc2511.py
+++ b/pyasn1_modules/rfc2511.py
@@ -29,15 +29,6 @@ id_regInfo = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2')
 id_regInfo_utf8Pairs = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.1')
 id_regInfo_certReq = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.2')
 
-
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
-
 class UTF8Pairs(char.UTF8String):
     pass
 
@@ -161,7 +152,7 @@ class POPOSigningKeyInput(univ.Sequence):
             'authInfo', univ.Choice(
                 componentType=namedtype.NamedTypes(
                     namedtype.NamedType(
-                        'sender', GeneralName().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
+                        'sender', GeneralName().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
                     ),
                     namedtype.NamedType('publicKeyMAC', PKMACValue())
                 )
-- 
2.43.0


From 9a60d71859e7f5f3bc8a9d3252fd4170272cf66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 10/24] fix: RFC2560 GeneralName is the RFC2459 GeneralName

---
 pyasn1_modules/rfc2560.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyasn1_modules/rfc2560.py b/pyasn1_modules/rfc2560.py
index 017ac0b..daa598d 100644
--- a/pyasn1_modules/rfc2560.py
+++ b/pyasn1_modules/rfc2560.py
@@ -51,13 +51,9 @@ class CRLReason(univ.Enumerated):
 
 # end of directory Authentication Framework (X.509) module
 
-# This should be in PKIX Certificate Extensions module
+# From the PKIX Certificate Extensions module
 
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
+GeneralName = rfc2459.GeneralName
 
 id_kp_OCSPSigning = univ.ObjectIdentifier((1, 3, 6, 1, 5, 5, 7, 3, 9))
 id_pkix_ocsp = univ.ObjectIdentifier((1, 3, 6, 1, 5, 5, 7, 48, 1))
-- 
2.43.0


From a4f86fdf7f6835c35529ad8501389d1d876f3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 11/24] fix: RFC3280 DirectoryString is overwritten by a
 placeholder

---
 pyasn1_modules/rfc3280.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..5a54e13 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1363,14 +1363,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 id_ce_invalidityDate = _OID(id_ce, 24)
 
 
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From 8522a11130952324b4a4deb1a6c172a4f1cc0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 12/24] fix: RFC7906 aa_keyUse and aa_otherCertificateFormats
 overwrite other attributes

---
 pyasn1_modules/rfc7906.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc7906.py b/pyasn1_modules/rfc7906.py
index fa5f6b0..4111693 100644
--- a/pyasn1_modules/rfc7906.py
+++ b/pyasn1_modules/rfc7906.py
@@ -403,8 +403,8 @@ KeyUse.namedValues = namedval.NamedValues(
 
 
 aa_keyUse = Attribute()
-aa_keyPurpose['attrType'] = id_kma_keyUse
-aa_keyPurpose['attrValues'][0] = KeyUse()
+aa_keyUse['attrType'] = id_kma_keyUse
+aa_keyUse['attrValues'][0] = KeyUse()
 
 
 # Transport Key Attribute
@@ -615,8 +615,8 @@ id_kma_otherCertFormats = univ.ObjectIdentifier('2.16.840.1.101.2.1.13.19')
 
 
 aa_otherCertificateFormats = Attribute()
-aa_signatureUsage_v3['attrType'] = id_kma_otherCertFormats
-aa_signatureUsage_v3['attrValues'][0] = CertificateChoices()
+aa_otherCertificateFormats['attrType'] = id_kma_otherCertFormats
+aa_otherCertificateFormats['attrValues'][0] = CertificateChoices()
 
 
 # PKI Path Attribute
-- 
2.43.0


From 4ec5f5a6f5de377c9114725965aa441252d7bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 13/24] fix: RFC4055 default OAEP and PSS identifiers encode
 without parameters

---
 pyasn1_modules/rfc3560.py | 1 +
 pyasn1_modules/rfc4055.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc3560.py b/pyasn1_modules/rfc3560.py
index 8365436..8ac7ef2 100644
--- a/pyasn1_modules/rfc3560.py
+++ b/pyasn1_modules/rfc3560.py
@@ -58,6 +58,7 @@ class RSAES_OAEP_params(rfc4055.RSAES_OAEP_params):
 
 
 rSAES_OAEP_Default_Params = RSAES_OAEP_params()
+rSAES_OAEP_Default_Params.clear()
 
 rSAES_OAEP_Default_Identifier = rfc4055.rSAES_OAEP_Default_Identifier
 
diff --git a/pyasn1_modules/rfc4055.py b/pyasn1_modules/rfc4055.py
index bdc1286..4a9b2c9 100644
--- a/pyasn1_modules/rfc4055.py
+++ b/pyasn1_modules/rfc4055.py
@@ -134,6 +134,7 @@ RSAES_OAEP_params.componentType = namedtype.NamedTypes(
 )
 
 rSAES_OAEP_Default_Params = RSAES_OAEP_params()
+rSAES_OAEP_Default_Params.clear()
 
 rSAES_OAEP_Default_Identifier = rfc5280.AlgorithmIdentifier()
 rSAES_OAEP_Default_Identifier['algorithm'] = id_RSAES_OAEP
@@ -195,6 +196,7 @@ RSASSA_PSS_params.componentType = namedtype.NamedTypes(
 )
 
 rSASSA_PSS_Default_Params = RSASSA_PSS_params()
+rSASSA_PSS_Default_Params.clear()
 
 rSASSA_PSS_Default_Identifier = rfc5280.AlgorithmIdentifier()
 rSASSA_PSS_Default_Identifier['algorithm'] = id_RSASSA_PSS
-- 
2.43.0


From e67bd5337d9b3bf8e33a1a3ee1fdf997624ff38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 14/24] fix: RFC7191 siren_dn cannot be cloned or decoded

---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From c6183058dddd7ab2ac9bab31d0cb3b729a6f1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 15/24] fix: RFC8418 dhSinglePass-stdDH-sha2kdf-scheme
 identifiers

---
 pyasn1_modules/rfc8418.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc8418.py b/pyasn1_modules/rfc8418.py
index 6e76487..5102743 100644
--- a/pyasn1_modules/rfc8418.py
+++ b/pyasn1_modules/rfc8418.py
@@ -23,11 +23,11 @@ class KeyWrapAlgorithmIdentifier(rfc5280.AlgorithmIdentifier):
     pass
 
 
-dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.1')
+dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.1')
 
-dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.2')
+dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.2')
 
-dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.3')
+dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.3')
 
 dhSinglePass_stdDH_hkdf_sha256_scheme = univ.ObjectIdentifier('1.2.840.113549.1.9.16.3.19')
 
-- 
2.43.0


From 44ba48aaf4c6c1c9f2ccd6bb5d4e35dc6e0266ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 16/24] fix: RFC6402 id-kp-cmcArchive has the identifier of
 id-kp-cmcRA

---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..811bf6f 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -493,7 +493,7 @@ class ExtensionReq(univ.SequenceOf):
 ExtensionReq.componentType = rfc5280.Extension()
 ExtensionReq.sizeSpec = constraint.ValueSizeConstraint(1, MAX)
 
-id_kp_cmcArchive = _buildOid(rfc5280.id_kp, 28)
+id_kp_cmcArchive = _buildOid(rfc5280.id_kp, 29)
 
 id_cmc_publishCert = _buildOid(id_cmc, 30)
 
-- 
2.43.0


From cdca231cbf09efe73b808b5662241fa75db1af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 17/24] fix: RFC4055 default OAEP and PSS identifiers keep
 their empty parameters

---
 pyasn1_modules/rfc4055.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc4055.py b/pyasn1_modules/rfc4055.py
index 4a9b2c9..775c3b1 100644
--- a/pyasn1_modules/rfc4055.py
+++ b/pyasn1_modules/rfc4055.py
@@ -138,7 +138,8 @@ rSAES_OAEP_Default_Params.clear()
 
 rSAES_OAEP_Default_Identifier = rfc5280.AlgorithmIdentifier()
 rSAES_OAEP_Default_Identifier['algorithm'] = id_RSAES_OAEP
-rSAES_OAEP_Default_Identifier['parameters'] = rSAES_OAEP_Default_Params
+# encoded, because the codec leaves out an empty optional structure
+rSAES_OAEP_Default_Identifier['parameters'] = univ.Any(hexValue='3000')
 
 rSAES_OAEP_SHA224_Params = RSAES_OAEP_params()
 rSAES_OAEP_SHA224_Params['hashFunc'] = sha224Identifier.subtype(
@@ -200,7 +201,8 @@ rSASSA_PSS_Default_Params.clear()
 
 rSASSA_PSS_Default_Identifier = rfc5280.AlgorithmIdentifier()
 rSASSA_PSS_Default_Identifier['algorithm'] = id_RSASSA_PSS
-rSASSA_PSS_Default_Identifier['parameters'] = rSASSA_PSS_Default_Params
+# encoded, because the codec leaves out an empty optional structure
+rSASSA_PSS_Default_Identifier['parameters'] = univ.Any(hexValue='3000')
 
 rSASSA_PSS_SHA224_Params = RSASSA_PSS_params()
 rSASSA_PSS_SHA224_Params['hashAlgorithm'] = sha224Identifier.subtype(
-- 
2.43.0


From e5a5bc700ad31ba9636eae6df33fe6898c972a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 18/24] fix: RFC7292 a safeContents bag holds SafeContents

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..72e5e09 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -312,7 +312,7 @@ _pkcs12BagTypeMap = {
     id_certBag: CertBag(),
     id_CRLBag: CRLBag(),
     id_secretBag: SecretBag(),
-    id_safeContentsBag: SafeBag(),
+    id_safeContentsBag: SafeContents(),
 }
 
 pkcs12BagTypeMap.update(_pkcs12BagTypeMap)
-- 
2.43.0


From 081545740c2352660eceeada407cf90cf184f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 19/24] fix: RFC7292 BAG-TYPE open type names a component that
 does not exist

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 72e5e09..5622ac3 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From 3eefbdfe7c89c9be2b319244dcda071428a5d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 20/24] fix: RFC4334 SSID lacks its SIZE

---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From e38bb67a340133742352c5be634c3035563edfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 21/24] fix: PEM blocks wrapped at a width that is not a
 multiple of four cannot be read

---
 pyasn1_modules/pem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index f7c80a9..8e9db7d 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -39,9 +39,9 @@ def readPemBlocksFromFile(fileObj, *markers):
                 certLines.append(certLine)
         if state == stDump:
             if sys.version_info[0] <= 2:
-                substrate = ''.join([base64.b64decode(x) for x in certLines])
+                substrate = base64.b64decode(''.join(certLines))
             else:
-                substrate = ''.encode().join([base64.b64decode(x.encode()) for x in certLines])
+                substrate = base64.b64decode(''.join(certLines).encode())
             break
     return idx, substrate
 
-- 
2.43.0


From 3d482923d442e157b9c58c6fdf419c863d140a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 22/24] fix: OCSP client fails to start with current pyasn1 and
 on Python 3

---
 tools/ocspclient.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..be4da6d 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -14,6 +14,7 @@ try:
 except ImportError:
     import urllib.request as urllib2
 
+from pyasn1.codec.ber.encoder import BitStringEncoder
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
 from pyasn1.type import univ
@@ -26,22 +27,13 @@ sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
 # noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
+class ValueOnlyBitStringEncoder(BitStringEncoder):
+    # This does not encode tag and length fields of TLV
+    def __call__(self, bitStringValue):
+        substrate = self.encodeValue(bitStringValue, None, None)[0]
         # OCSP-specific hack follows: cut off the "unused bit count"
         # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
+        return substrate[1:]
 
 
 valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
-- 
2.43.0


From b12816219bbdb797a53c7581c2ae9ededf289c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 23/24] fix: CMC dump tool loops forever on a content type it
 does not handle

---
 tools/cmcdump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..3a527a0 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,6 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        sys.exit('Unsupported content type: %s' % next_layer)
-- 
2.43.0


From 53f0533ce9d17a70c8fc6f397e99b7b0cd114c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 24/24] fix: SNMP tool does not show the request it sends

The NULL value of the variable binding was only instantiated as a schema
object, so the whole PDU counted as absent when the message was printed.
---
 tools/snmpget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/snmpget.py b/tools/snmpget.py
index c6d97a5..fbbe7c5 100755
--- a/tools/snmpget.py
+++ b/tools/snmpget.py
@@ -32,7 +32,7 @@ pdu.setComponentByPosition(2, 0)
 vbl = pdu.setComponentByPosition(3).getComponentByPosition(3)
 vb = vbl.setComponentByPosition(0).getComponentByPosition(0)
 vb.setComponentByPosition(0, sys.argv[3])
-v = vb.setComponentByPosition(1).getComponentByPosition(1).setComponentByPosition(0).getComponentByPosition(0).setComponentByPosition(3).getComponentByPosition(3)
+v = vb.setComponentByPosition(1).getComponentByPosition(1).setComponentByPosition(0).getComponentByPosition(0).setComponentByPosition(3, '').getComponentByPosition(3)
 
 print('sending: %s' % msg.prettyPrint())
 
-- 
2.43.0

