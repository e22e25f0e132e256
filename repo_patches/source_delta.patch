From f60d800bf6126e5806a02d847c39a1107a4750aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 001/124] fix: merge valid ranges of 64 bit unsigned integers
 with unsigned comparison and without overflow

---
 lib/src/parse/ParseIntFieldImpl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..5d195a0 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -932,6 +932,16 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
             return elem1.m_max < elem2.m_max;
         });
 
+    auto isLessFunc =
+        [bigUnsigned](std::intmax_t val1, std::intmax_t val2)
+        {
+            if (bigUnsigned) {
+                return static_cast<std::uintmax_t>(val1) < static_cast<std::uintmax_t>(val2);
+            }
+
+            return val1 < val2;
+        };
+
     // Merge
     for (auto iter = m_state.m_validRanges.begin(); iter != m_state.m_validRanges.end(); ++iter) {
         if (iter->m_deprecatedSince == 0U) {
@@ -945,13 +955,13 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                ((iter->m_max + 1) < nextIter->m_min)) {
+                (isLessFunc(iter->m_max, nextIter->m_min) && ((nextIter->m_min - 1) != iter->m_max))) {
                 break;
             }
 
-            assert(iter->m_min <= nextIter->m_min);
+            assert(!isLessFunc(nextIter->m_min, iter->m_min));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            iter->m_max = std::max(iter->m_max, nextIter->m_max, isLessFunc);
         }
     }
 
-- 
2.43.0


From 17b011385cc9bed36431367c759e03e9572362c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 002/124] fix: keep validCond of a bitfield when it is copied
 as a member of a reused field

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..838ac73 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -57,6 +57,10 @@ ParseBitfieldFieldImpl::ParseBitfieldFieldImpl(const ParseBitfieldFieldImpl& oth
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBitfieldFieldImpl::ParseMembers ParseBitfieldFieldImpl::parseMembersList() const
-- 
2.43.0


From 76f151a1491cacc43a87f2eb461ac731ff5f7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 003/124] fix: include messages of nested namespaces in
 ParseSchema::parseAllMessages()

---
 lib/src/parse/ParseNamespaceImpl.cpp | 11 +++++++++++
 lib/src/parse/ParseNamespaceImpl.h   |  1 +
 lib/src/parse/ParseSchemaImpl.cpp    | 11 +----------
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 43caaea..2a08678 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -419,6 +419,17 @@ bool ParseNamespaceImpl::parseStrToData(const std::string& ref, std::vector<std:
             });
 }
 
+ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseAllMessagesList() const
+{
+    auto result = parseMessagesList();
+    for (auto& n : m_namespaces) {
+        auto msgs = n.second->parseAllMessagesList();
+        result.insert(result.end(), msgs.begin(), msgs.end());
+    }
+
+    return result;
+}
+
 ParseNamespaceImpl::ParseImplInterfacesList ParseNamespaceImpl::parseAllImplInterfaces() const
 {
     ParseImplInterfacesList result;
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index d737768..41a5e90 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -132,6 +132,7 @@ public:
     ParseNamespacesList parseNamespacesList() const;
     ParseFieldsList parseFieldsList() const;
     ParseMessagesList parseMessagesList() const;
+    ParseMessagesList parseAllMessagesList() const;
     ParseInterfacesList parseInterfacesList() const;
     ParseFramesList parseFramesList() const;
 
diff --git a/lib/src/parse/ParseSchemaImpl.cpp b/lib/src/parse/ParseSchemaImpl.cpp
index ea0be48..3220175 100644
--- a/lib/src/parse/ParseSchemaImpl.cpp
+++ b/lib/src/parse/ParseSchemaImpl.cpp
@@ -137,18 +137,9 @@ const ParseInterfaceImpl* ParseSchemaImpl::parseFindInterface(const std::string&
 
 ParseSchemaImpl::ParseMessagesList ParseSchemaImpl::parseAllMessages() const
 {
-    auto total =
-        std::accumulate(
-            m_namespaces.begin(), m_namespaces.end(), static_cast<std::size_t>(0U),
-            [](std::size_t soFar, auto& ns) -> std::size_t
-            {
-                return soFar + ns.second->parseMessages().size();
-            });
-
     ParseNamespaceImpl::ParseMessagesList messages;
-    messages.reserve(total);
     for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
+        auto nsMsgs = ns.second->parseAllMessagesList();
         messages.insert(messages.end(), nsMsgs.begin(), nsMsgs.end());
     }
 
-- 
2.43.0


From 62a16ad9174ac53be16837d93f0bdc4dca818166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 004/124] fix: allow replacing more than one field of a reused
 message

---
 lib/src/parse/ParseMessageImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..dcf3322 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -858,7 +858,8 @@ bool ParseMessageImpl::parseReplaceFields()
     }
 
     auto fieldsTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front(), parseMessageSupportedTypes());
-    if (fieldsTypes.size() != replaceNodes.size()) {
+    auto allTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front());
+    if (fieldsTypes.size() != allTypes.size()) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
             "The \"" << common::parseReplaceStr() << "\" child node of \"" <<
             common::parseMessageStr() << "\" element must contain only supported field types.";
-- 
2.43.0


From f3d6915fd059e3d11c46577c12a42a2abedf6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 005/124] fix: parse replaced members after versions of their
 parent are known, do not abort on an empty <replace>

---
 lib/src/parse/ParseFieldImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..02dad23 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -100,11 +100,11 @@ bool ParseFieldImpl::parse()
 
     bool result =
         parseCheckReuse() &&
-        parseCheckReplace() &&
         parseUpdateName() &&
         parseUpdateDisplayName() &&
         parseUpdateDescription() &&
         parseUpdateVersions() &&
+        parseCheckReplace() &&
         parseUpdateSemanticType() &&
         parseUpdatePseudo() &&
         parseUpdateFixedValue() &&
@@ -1147,7 +1147,6 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
     return parseReplaceMembersImpl(replMembers);
 }
 
-- 
2.43.0


From e87ddccfd675e682de2eafbf3858d4c28a6a6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 006/124] fix: keep aliases and validCond of a bundle when it
 is copied as a member of a reused field

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..e5dfc6c 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -64,6 +64,15 @@ ParseBundleFieldImpl::ParseBundleFieldImpl(const ParseBundleFieldImpl& other)
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    m_aliases.reserve(other.m_aliases.size());
+    for (auto& a : other.m_aliases) {
+        m_aliases.push_back(a->parseClone());
+    }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBundleFieldImpl::ParseMembers ParseBundleFieldImpl::parseMembersList() const
-- 
2.43.0


From 6b584d96a8332dbca4e89aea6efd50211456443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 007/124] fix: refuse numeric properties with trailing garbage,
 negative or too big values for unsigned ones

---
 lib/src/parse/parse_common.cpp | 53 ++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..73ed0a4 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -935,19 +935,39 @@ char parseInterfaceRefPrefix()
     return '%';
 }
 
+namespace
+{
+
+// Nothing but white space is allowed to follow the parsed number
+bool parseIsNumEnd(const std::string& str, std::size_t pos)
+{
+    return str.find_first_not_of(" \t\r\n", pos) == std::string::npos;
+}
+
+// std::stoull() and friends silently wrap negative numbers
+bool parseIsNegativeNum(const std::string& str)
+{
+    auto pos = str.find_first_not_of(" \t\r\n");
+    return (pos != std::string::npos) && (str[pos] == '-');
+}
+
+} // namespace
+
 unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
+    bool okTmp = false;
+    auto value = parseStrToUintMax(str, &okTmp, base);
     unsigned result = 0U;
-    try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
-        if (ok != nullptr) {
-            *ok = true;
-        }
+    if (std::numeric_limits<unsigned>::max() < value) {
+        okTmp = false;
+    }
 
-    } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+    if (okTmp) {
+        result = static_cast<decltype(result)>(value);
+    }
+
+    if (ok != nullptr) {
+        *ok = okTmp;
     }
     return result;
 }
@@ -956,9 +976,10 @@ std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 {
     std::intmax_t result = 0;
     try {
-        result = std::stoll(str, 0, base);
+        std::size_t pos = 0U;
+        result = std::stoll(str, &pos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsNumEnd(str, pos);
         }
 
     } catch (...) {
@@ -973,9 +994,10 @@ std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
     try {
-        result = std::stoull(str, 0, base);
+        std::size_t pos = 0U;
+        result = std::stoull(str, &pos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsNumEnd(str, pos) && (!parseIsNegativeNum(str));
         }
 
     } catch (...) {
@@ -1012,8 +1034,9 @@ double parseStrToDouble(const std::string& str, bool* ok, bool allowSpecials)
 
     double result = 0.0;
     try {
-        result = std::stod(str, 0);
-        updateOk(true);
+        std::size_t pos = 0U;
+        result = std::stod(str, &pos);
+        updateOk(parseIsNumEnd(str, pos));
 
     } catch (...) {
         updateOk(false);
-- 
2.43.0


From 756a84ae41bf9f4150a44cd36816a02c7fff3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 008/124] fix: refuse frames with repeated layer names

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From 5e5edd3bd572a21f4af09620f6b2f83e0afe360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 009/124] fix: check uniqueness of message ids on every level
 of nested namespaces and report location of the offender

---
 lib/src/parse/ParseNamespaceImpl.cpp | 48 ++++++++++++++++------------
 lib/src/parse/ParseNamespaceImpl.h   |  2 ++
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 2a08678..e671c29 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -446,6 +446,22 @@ ParseNamespaceImpl::ParseImplInterfacesList ParseNamespaceImpl::parseAllImplInte
     return result;
 }
 
+ParseNamespaceImpl::ParseImplMessagesList ParseNamespaceImpl::parseAllImplMessages() const
+{
+    ParseImplMessagesList result;
+    for (auto& n : m_namespaces) {
+        auto msgs = n.second->parseAllImplMessages();
+        result.insert(result.end(), msgs.begin(), msgs.end());
+    }
+
+    result.reserve(result.size() + m_messages.size());
+    for (auto& m : m_messages) {
+        result.push_back(m.second.get());
+    }
+
+    return result;
+}
+
 ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInterfaceFieldRef(const std::string& refStr) const
 {
     ParseFieldRefInfosList result;
@@ -462,25 +478,19 @@ ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInter
 
 bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
 {
-    ParseMessagesList allMsgs = parseMessagesList();
-    for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
-        allMsgs.insert(allMsgs.end(), nsMsgs.begin(), nsMsgs.end());
-    }
+    auto allMsgs = parseAllImplMessages();
 
     std::sort(
         allMsgs.begin(), allMsgs.end(),
-        [](const auto& msg1, const auto& msg2)
+        [](const auto* msg1, const auto* msg2)
         {
-            assert(msg1.parseValid());
-            assert(msg2.parseValid());
-            auto id1 = msg1.parseId();
-            auto id2 = msg2.parseId();
+            auto id1 = msg1->parseId();
+            auto id2 = msg2->parseId();
             if (id1 != id2) {
                 return id1 < id2;
             }
 
-            return msg1.parseOrder() < msg2.parseOrder();
+            return msg1->parseOrder() < msg2->parseOrder();
         });
 
     if (allMsgs.empty()) {
@@ -491,26 +501,24 @@ bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
         auto nextIter = iter + 1;
         assert(nextIter != allMsgs.end());
 
-        assert(iter->parseValid());
-        assert(nextIter->parseValid());
-        if (iter->parseId() != nextIter->parseId()) {
+        if ((*iter)->parseId() != (*nextIter)->parseId()) {
             continue;
         }
 
         if (!allowNonUniquIds) {
-            parseLogError() << "Messages \"" << iter->parseExternalRef() << "\" and \"" <<
-                          nextIter->parseExternalRef() << "\" have the same id: " << iter->parseId();
+            parseLogError() << ParseXmlWrap::parseLogPrefix((*nextIter)->parseGetNode()) << "Messages \"" << (*iter)->parseExternalRef(true) << "\" and \"" <<
+                          (*nextIter)->parseExternalRef(true) << "\" have the same id: " << (*iter)->parseId();
             return false;
         }
 
-        if (iter->parseOrder() == nextIter->parseOrder()) {
-            parseLogError() << "Messages \"" << iter->parseExternalRef() << "\" and \"" <<
-                          nextIter->parseExternalRef() << "\" have the same \"" <<
+        if ((*iter)->parseOrder() == (*nextIter)->parseOrder()) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix((*nextIter)->parseGetNode()) << "Messages \"" << (*iter)->parseExternalRef(true) << "\" and \"" <<
+                          (*nextIter)->parseExternalRef(true) << "\" have the same \"" <<
                           common::parseIdStr() << "\" and \"" << common::parseOrderStr() << "\" values.";
             return false;
         }
 
-        assert(iter->parseOrder() < nextIter->parseOrder());
+        assert((*iter)->parseOrder() < (*nextIter)->parseOrder());
     }
 
     return true;
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index 41a5e90..9bdbfcf 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -70,6 +70,7 @@ public:
     using ParseMessagesList = ParseNamespace::ParseMessagesList;
     using ParseInterfacesList = ParseNamespace::ParseInterfacesList;
     using ParseImplInterfacesList = std::vector<ParseInterfaceImpl*>;
+    using ParseImplMessagesList = std::vector<const ParseMessageImpl*>;
     using ParseFramesList = ParseNamespace::ParseFramesList;
     using ParseNamespacesMap = std::map<std::string, ParsePtr>;
     using ParseFieldsMap = std::map<std::string, ParseFieldImplPtr, ParseKeyComp>;
@@ -182,6 +183,7 @@ public:
     bool parseStrToData(const std::string& ref, std::vector<std::uint8_t>& val) const;
 
     ParseImplInterfacesList parseAllImplInterfaces() const;
+    ParseImplMessagesList parseAllImplMessages() const;
 
     ParseFieldRefInfosList parseProcessInterfaceFieldRef(const std::string& refStr) const;
 
-- 
2.43.0


From df7cf9a01a532226c080b5060e848dda96ba7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 010/124] fix: report location of repeated definitions and
 floating point values out of range

---
 lib/src/parse/ParseDataFieldImpl.cpp     | 2 +-
 lib/src/parse/ParseFloatFieldImpl.cpp    | 8 ++++----
 lib/src/parse/ParseLayerImpl.cpp         | 6 +++---
 lib/src/parse/ParseListFieldImpl.cpp     | 8 ++++----
 lib/src/parse/ParseOptionalFieldImpl.cpp | 6 +++---
 lib/src/parse/ParseStringFieldImpl.cpp   | 2 +-
 lib/src/parse/ParseSyncLayerImpl.cpp     | 4 ++--
 7 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..026ee86 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -407,7 +407,7 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..1dbf9d6 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -380,13 +380,13 @@ bool ParseFloatFieldImpl::parseUpdateDefaultValue()
     }
 
     if (m_state.m_typeAllowedMaxValue < m_state.m_defaultValue) {
-        parseLogError() << "Value of property \"" << common::parseDefaultValueStr() <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << common::parseDefaultValueStr() <<
                         "\" is greater than the type's maximal value.";
         return false;
     }
 
     if (m_state.m_defaultValue < m_state.m_typeAllowedMinValue) {
-        parseLogError() << "Value of property \"" << common::parseDefaultValueStr() <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << common::parseDefaultValueStr() <<
                         "\" is less than the type's minimal value.";
         return false;
     }
@@ -1071,13 +1071,13 @@ bool ParseFloatFieldImpl::parseValidateValidValueStr(
     }
 
     if (m_state.m_typeAllowedMaxValue < val) {
-        parseLogError() << "Value of property \"" << type <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << type <<
                         "\" is greater than the type's maximal value.";
         return false;
     }
 
     if (val < m_state.m_typeAllowedMinValue) {
-        parseLogError() << "Value of property \"" << type <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << type <<
                         "\" is less than the type's minimal value.";
         return false;
     }
diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..9d60257 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -502,7 +502,7 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
 {
     auto children = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseFieldStr());
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
         return false;
     }
 
@@ -542,7 +542,7 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) != parseProps().end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
@@ -573,7 +573,7 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
         if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..f93fdaa 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -495,7 +495,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
     // }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseElementStr() << "\".";
         return false;
     }
 
@@ -535,7 +535,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
         }
 
         if (parseProps().find(common::parseElementStr()) != parseProps().end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
             return false;
         }
 
@@ -573,7 +573,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
         if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
             return false;
         }
 
@@ -675,7 +675,7 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << type << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << type << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..2f5fb1c 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -425,7 +425,7 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
 {
     auto children = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseFieldStr());
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
         return false;
     }
 
@@ -465,7 +465,7 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) != parseProps().end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
@@ -496,7 +496,7 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
         if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..9d73b36 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -508,7 +508,7 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..3ebcdf2 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -275,12 +275,12 @@ bool ParseSyncLayerImpl::parseCheckEscFieldAsChildInternal()
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << prop << "\" child element.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << prop << "\" child element.";
         return false;
     }
 
     if (m_extEscField != nullptr) {
-        parseLogError() << "There must be only one occurance of \"" << prop << "\" definition.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << prop << "\" definition.";
         return false;
     }
 
-- 
2.43.0


From fa008e7c0a9e502f4fa4e8fab033b7f75ed413f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 011/124] fix: refuse zero and too big bitLength

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 2 +-
 lib/src/parse/ParseIntFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseRefFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseSetFieldImpl.cpp  | 7 ++++++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..7908d9a 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -374,7 +374,7 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 5d195a0..f7523a0 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -641,7 +641,7 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..959c50e 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -254,7 +254,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..e1ebc13 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -380,7 +380,12 @@ bool ParseSetFieldImpl::parseUpdateLength()
             return false;
         }
 
-        if ((m_state.m_length != 0) && ((m_state.m_length * 8U) < m_state.m_bitLength)) {
+        auto maxBitLength = std::numeric_limits<std::uint64_t>::digits;
+        if (m_state.m_length != 0) {
+            maxBitLength = static_cast<decltype(maxBitLength)>(m_state.m_length * 8U);
+        }
+
+        if (static_cast<unsigned>(maxBitLength) < m_state.m_bitLength) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
-- 
2.43.0


From 4fc473f558930f23a7a9a93d515a4afb519df396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 012/124] fix: check validateMinLength of messages without
 fields of their own

---
 lib/src/parse/ParseMessageImpl.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index dcf3322..287fc92 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1060,18 +1060,18 @@ bool ParseMessageImpl::parseUpdateFields()
             return false;
         }
 
-        if (0 <= m_state.m_validateMinLength) {
-            auto len = parseMinLength();
-            if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
-                parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                    "The calculated minimal length of the message is " << len <<
-                    " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
-                return false;
-            }
-        }
-
     } while (false);
 
+    if (0 <= m_state.m_validateMinLength) {
+        auto len = parseMinLength();
+        if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The calculated minimal length of the message is " << len <<
+                " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From daf1980dba6eb3e73b0d0ea05f8e4de82ed494f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 013/124] fix: do not abort on reuse of a message with order or
 platforms

---
 lib/src/parse/ParseMessageImpl.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 287fc92..9c4f941 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -539,7 +539,6 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
         return true;
     }
 
@@ -615,7 +614,6 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
         return true;
     }
 
-- 
2.43.0


From e42fcb729ec670f717d702d5d2c9dffd0a4abf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 014/124] fix: report invalid size comparison values and refuse
 trailing garbage in them

---
 lib/src/parse/ParseOptCondImpl.cpp | 18 +++++++++---------
 lib/src/parse/ParseOptCondImpl.h   |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..ec562e3 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -443,7 +443,7 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -523,7 +523,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     parseDiscardNonFieldReferences(leftFields);
@@ -619,16 +619,16 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
     return true;
 }
 
-bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
+bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const
 {
-    try {
-        [[maybe_unused]] auto val = std::stoll(m_right);
-        return true;
-    } catch (...) {
-        // Do nothing
+    bool ok = false;
+    common::parseStrToIntMax(m_right, &ok);
+    if (!ok) {
+        parseLogError(protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(node) <<
+            "The \"" << m_right << "\" string is expected to be a numeric value to compare the size of \"" << m_left << "\" to.";
     }
 
-    return false;
+    return ok;
 }
 
 ParseOptCondListImpl::ParseOptCondListImpl(const ParseOptCondListImpl& other)
diff --git a/lib/src/parse/ParseOptCondImpl.h b/lib/src/parse/ParseOptCondImpl.h
index d9bc64c..1c11d26 100644
--- a/lib/src/parse/ParseOptCondImpl.h
+++ b/lib/src/parse/ParseOptCondImpl.h
@@ -129,7 +129,7 @@ private:
     bool parseVerifyComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifySiblingComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifyInterfaceComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
-    bool parseVerifyValidSizeValueComparison() const;
+    bool parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
 
     std::string m_left;
     std::string m_op;
-- 
2.43.0


From ca712dbf5c7dea6b21edbfa5a4339e286f795725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 015/124] fix: negated platforms list overrides the platforms
 of the reused message

---
 lib/src/parse/ParseMessageImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 9c4f941..2559953 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -679,6 +679,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear();
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From cfd79afa66052e023d2dfc3b4fe9183daa109713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 016/124] fix: no signed overflow when merging valid ranges
 that start at the smallest value

---
 lib/src/parse/ParseIntFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index f7523a0..fd994de 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -955,7 +955,7 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                (isLessFunc(iter->m_max, nextIter->m_min) && ((nextIter->m_min - 1) != iter->m_max))) {
+                (isLessFunc(iter->m_max, nextIter->m_min) && ((static_cast<std::uintmax_t>(nextIter->m_min) - 1U) != static_cast<std::uintmax_t>(iter->m_max)))) {
                 break;
             }
 
-- 
2.43.0


From a945c08aa72993c4010ead8e14e508299adaa287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 017/124] fix: valid ranges of generated int fields: drop not
 existing ones, honour deprecation, no overflow when merging

---
 app/commsdsl2comms/src/CommsEnumField.cpp |  1 -
 app/commsdsl2comms/src/CommsIntField.cpp  | 50 ++++++++++++++---------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..cfa9c15 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1409,7 +1409,6 @@ const CommsNamespace* CommsEnumField::commsNamespaceForMsgId() const
         return nullptr;
     }
 
-    assert(allMsgIdFields.front() == this);
     if (allMsgIdFields.front() != this) {
         return nullptr;
     }
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 975805f..dcdb02f 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -919,44 +919,58 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseIntField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        (type == commsdsl::parse::ParseIntField::ParseType::Uintvar);
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
         obj.parseValidCheckVersion();
 
+    validRanges.erase(
+        std::remove_if(
+            validRanges.begin(), validRanges.end(),
+            [this](auto& r)
+            {
+                return !this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true);
+            }),
+        validRanges.end());
+
+    if (validRanges.empty()) {
+        return;
+    }
+
     if (!validCheckVersion) {
         // unify
+        std::sort(
+            validRanges.begin(), validRanges.end(),
+            [bigUnsigned](auto& r1, auto& r2)
+            {
+                if (bigUnsigned) {
+                    return static_cast<std::uintmax_t>(r1.m_min) < static_cast<std::uintmax_t>(r2.m_min);
+                }
+
+                return r1.m_min < r2.m_min;
+            });
+
         std::size_t idx = 0U;
         while (idx < (validRanges.size() - 1U)) {
             auto& thisRange = validRanges[idx];
             auto& nextRange = validRanges[idx + 1];
 
             auto needToMergeCheck =
-                [](auto min1, auto max1, auto min2, auto max2) -> bool
+                [](auto max1, auto min2) -> bool
                 {
-                    static_cast<void>(min1);
-                    static_cast<void>(max2);
-                    assert(min1 <= min2);
-                    if (min2 <= (max1 + 1)) {
-                        assert(max1 <= max2);
-                        return true;
-                    }
-
-                    return false;
+                    return (min2 <= max1) || ((min2 - 1) == max1);
                 };
 
             bool merge = false;
             if (bigUnsigned) {
                 merge =
                     needToMergeCheck(
-                        static_cast<std::uintmax_t>(thisRange.m_min),
                         static_cast<std::uintmax_t>(thisRange.m_max),
-                        static_cast<std::uintmax_t>(nextRange.m_min),
-                        static_cast<std::uintmax_t>(nextRange.m_max));
+                        static_cast<std::uintmax_t>(nextRange.m_min));
             }
             else {
-                merge = needToMergeCheck(thisRange.m_min, thisRange.m_max, nextRange.m_min, nextRange.m_max);
+                merge = needToMergeCheck(thisRange.m_max, nextRange.m_min);
             }
 
             if (!merge) {
@@ -992,11 +1006,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     bool versionStorageRequired = false;
     bool addedRangeOpt = false;
     for (auto& r : validRanges) {
-        if (!genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion)) {
-            continue;
-        }
-
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, false))) {
+        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true))) {
             versionStorageRequired = true;
             continue;
         }
-- 
2.43.0


From 04f6b6cbd71cb36c8b6cf703ee3209d7fd6d6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 018/124] fix: messages and interfaces of nested namespaces are
 not left out of the generated code

---
 lib/src/gen/GenNamespace.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 418654b..ea393b9 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -183,6 +183,10 @@ public:
 
     void genSetAllInterfacesReferenced()
     {
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllInterfacesReferenced();
+        }
+
         for (auto& iPtr : m_interfaces) {
             iPtr->genSetReferenced(true);
         }
@@ -190,6 +194,10 @@ public:
 
     void genSetAllMessagesReferenced()
     {
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllMessagesReferenced();
+        }
+
         for (auto& mPtr : m_messages) {
             mPtr->genSetReferenced(true);
         }
-- 
2.43.0


From f0cbb1e9e47c892ec3f839c7f8db3d4f2f384009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 019/124] fix: conditions may reference interfaces of any
 namespace

---
 lib/include/commsdsl/gen/GenNamespace.h |  1 +
 lib/src/gen/GenInterface.cpp            | 22 +++++++++++++++++++++-
 lib/src/gen/GenNamespace.cpp            | 19 +++++++++++++++++++
 lib/src/gen/GenSchema.cpp               |  8 ++++++++
 4 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/lib/include/commsdsl/gen/GenNamespace.h b/lib/include/commsdsl/gen/GenNamespace.h
index cfa2a3f..6a034d0 100644
--- a/lib/include/commsdsl/gen/GenNamespace.h
+++ b/lib/include/commsdsl/gen/GenNamespace.h
@@ -63,6 +63,7 @@ public:
     }
 
     bool genCreateAll();
+    bool genPrepareAllInterfaces();
     bool genPrepare();
     bool genWrite() const;
 
diff --git a/lib/src/gen/GenInterface.cpp b/lib/src/gen/GenInterface.cpp
index cb43266..9b8f2d2 100644
--- a/lib/src/gen/GenInterface.cpp
+++ b/lib/src/gen/GenInterface.cpp
@@ -130,12 +130,23 @@ public:
         m_referenced = value;
     }
 
+    bool genIsPrepared() const
+    {
+        return m_prepared;
+    }
+
+    void genSetPrepared()
+    {
+        m_prepared = true;
+    }
+
 private:
     GenGenerator& m_generator;
     ParseInterface m_parseObj;
     GenElem* m_parent = nullptr;
     GenFieldsList m_fields;
     bool m_referenced = false;
+    bool m_prepared = false;
 };
 
 GenInterface::GenInterface(GenGenerator& generator, ParseInterface parseObj, GenElem* parent) :
@@ -153,6 +164,10 @@ bool GenInterface::genCreateAll()
 
 bool GenInterface::genPrepare()
 {
+    if (m_impl->genIsPrepared()) {
+        return true;
+    }
+
     if (!m_impl->genPrepare()) {
         return false;
     }
@@ -161,7 +176,12 @@ bool GenInterface::genPrepare()
         return true;
     }
 
-    return genPrepareImpl();
+    if (!genPrepareImpl()) {
+        return false;
+    }
+
+    m_impl->genSetPrepared();
+    return true;
 }
 
 bool GenInterface::genWrite() const
diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index ea393b9..736b359 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -96,6 +96,20 @@ public:
             genPrepareFrames();
     }
 
+    bool genPrepareAllInterfaces()
+    {
+        bool namespacesResult =
+            std::all_of(
+                m_namespaces.begin(), m_namespaces.end(),
+                [](auto& n)
+                {
+                    assert(n);
+                    return n->genPrepareAllInterfaces();
+                });
+
+        return namespacesResult && genPrepareInterfaces();
+    }
+
     bool genWrite() const
     {
         return
@@ -581,6 +595,11 @@ bool GenNamespace::genCreateAll()
     return m_impl->genCreateAll();
 }
 
+bool GenNamespace::genPrepareAllInterfaces()
+{
+    return m_impl->genPrepareAllInterfaces();
+}
+
 bool GenNamespace::genPrepare()
 {
     return m_impl->genPrepare() && genPrepareImpl();
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..8298189 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -305,7 +305,15 @@ public:
             m_mainNamespace = m_origNamespace;
         }
 
+        // Messages may reference the fields of any interface
         bool namespacesResult =
+            std::all_of(
+                m_namespaces.begin(), m_namespaces.end(),
+                [](auto& n)
+                {
+                    assert(n);
+                    return n->genPrepareAllInterfaces();
+                }) &&
             std::all_of(
                 m_namespaces.begin(), m_namespaces.end(),
                 [](auto& n)
-- 
2.43.0


From 210ecd684496f217c212130584291f5b7ebe66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 020/124] fix: comparison with big unsigned enum values in
 conditions

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 25 ++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index cfa9c15..b2d019c 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -491,13 +491,28 @@ std::string CommsEnumField::commsCompPrepValueStrImpl([[maybe_unused]] const std
 {
     assert(accStr.empty());
 
+    auto valToString =
+        [this](std::intmax_t val)
+        {
+            auto type = genEnumFieldParseObj().parseType();
+            if ((type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
+                (type == commsdsl::parse::ParseEnumField::ParseType::Uintvar)) {
+                return util::genNumToString(static_cast<std::uintmax_t>(val));
+            }
+
+            return util::genNumToString(val);
+        };
+
     if (value.empty()) {
-        return util::genNumToString(genEnumFieldParseObj().parseDefaultValue());
+        return valToString(genEnumFieldParseObj().parseDefaultValue());
     }
 
     try {
-        auto val = static_cast<std::intmax_t>(std::stoll(value, nullptr, 0));
-        return util::genNumToString(val);
+        if (value[0] == '-') {
+            return valToString(static_cast<std::intmax_t>(std::stoll(value, nullptr, 0)));
+        }
+
+        return valToString(static_cast<std::intmax_t>(std::stoull(value, nullptr, 0)));
     }
     catch (...) {
         // nothing to do
@@ -507,7 +522,7 @@ std::string CommsEnumField::commsCompPrepValueStrImpl([[maybe_unused]] const std
     auto& values = obj.parseValues();
     auto iter = values.find(value);
     if (iter != values.end()) {
-        return util::genNumToString(iter->second.m_value);
+        return valToString(iter->second.m_value);
     }
 
     auto lastDot = value.find_last_of(".");
@@ -533,7 +548,7 @@ std::string CommsEnumField::commsCompPrepValueStrImpl([[maybe_unused]] const std
         return CommsBase::commsCompPrepValueStrImpl(accStr, value);
     }
 
-    return util::genNumToString(otherIter->second.m_value);
+    return valToString(otherIter->second.m_value);
 }
 
 bool CommsEnumField::commsVerifyInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From ed91534b162a520923fccddcdf8706bfca0136a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 021/124] fix: find the message to copy code from regardless of
 the order of messages

---
 lib/src/gen/GenNamespace.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 736b359..318def3 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -754,14 +754,14 @@ const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) c
     auto& mList = genMessages();
     if (nsName.empty()) {
         auto messageIter =
-            std::lower_bound(
-                mList.begin(), mList.end(), externalRef,
-                [](auto& m, auto& n)
+            std::find_if(
+                mList.begin(), mList.end(),
+                [&externalRef](auto& m)
                 {
-                    return m->genName() < n;
+                    return m->genName() == externalRef;
                 });
 
-        if ((messageIter == mList.end()) || ((*messageIter)->genName() != externalRef)) {
+        if (messageIter == mList.end()) {
             return nullptr;
         }
 
-- 
2.43.0


From d25a408a9a3f4f71571aba1991efddbceea8e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 022/124] fix: no crash after the referenced field was refused

---
 lib/src/gen/GenDataField.cpp     |  5 ++++-
 lib/src/gen/GenField.cpp         |  2 +-
 lib/src/gen/GenGenerator.cpp     |  4 ++--
 lib/src/gen/GenLayer.cpp         |  5 ++++-
 lib/src/gen/GenListField.cpp     | 25 ++++++++++++++++++++-----
 lib/src/gen/GenOptionalField.cpp |  5 ++++-
 lib/src/gen/GenRefField.cpp      |  1 -
 lib/src/gen/GenSchema.cpp        |  6 +++---
 lib/src/gen/GenStringField.cpp   |  5 ++++-
 lib/src/gen/GenSyncLayer.cpp     |  5 ++++-
 10 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/lib/src/gen/GenDataField.cpp b/lib/src/gen/GenDataField.cpp
index 33cb891..42a732a 100644
--- a/lib/src/gen/GenDataField.cpp
+++ b/lib/src/gen/GenDataField.cpp
@@ -48,7 +48,10 @@ public:
         auto prefix = m_dataParseObj.parseLengthPrefixField();
         if (!prefix.parseExternalRef().empty()) {
             m_externalPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-            assert(m_externalPrefixField != nullptr);
+            if (m_externalPrefixField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenField.cpp b/lib/src/gen/GenField.cpp
index f0ca4e3..b31f06e 100644
--- a/lib/src/gen/GenField.cpp
+++ b/lib/src/gen/GenField.cpp
@@ -149,7 +149,7 @@ bool GenField::genPrepare()
         m_impl->genSetPrepared();
     }
 
-    if (genParseObj().parseIsForceGen()) {
+    if (result && genParseObj().parseIsForceGen()) {
         genSetReferenced();
     }
 
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..0709aa2 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -875,7 +875,7 @@ GenField* GenGenerator::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -898,7 +898,7 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
diff --git a/lib/src/gen/GenLayer.cpp b/lib/src/gen/GenLayer.cpp
index 12449ea..d523e98 100644
--- a/lib/src/gen/GenLayer.cpp
+++ b/lib/src/gen/GenLayer.cpp
@@ -63,7 +63,10 @@ public:
         auto extRef = dslField.parseExternalRef();
         if (!extRef.empty()) {
             m_externalField = m_generator.genFindField(extRef);
-            assert(m_externalField != nullptr);
+            if (m_externalField == nullptr) {
+                return false;
+            }
+
             m_externalField->genSetReferenced();
             return true;
         }
diff --git a/lib/src/gen/GenListField.cpp b/lib/src/gen/GenListField.cpp
index 0834ef1..492236f 100644
--- a/lib/src/gen/GenListField.cpp
+++ b/lib/src/gen/GenListField.cpp
@@ -47,7 +47,10 @@ public:
             assert(elementField.parseValid());
             if (!elementField.parseExternalRef().empty()) {
                 m_externalElementField = m_generator.genFindField(elementField.parseExternalRef());
-                assert(m_externalElementField != nullptr);
+                if (m_externalElementField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -65,7 +68,10 @@ public:
             auto prefix = m_parseObj.parseCountPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalCountPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalCountPrefixField != nullptr);
+                if (m_externalCountPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -92,7 +98,10 @@ public:
             auto prefix = m_parseObj.parseLengthPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalLengthPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalLengthPrefixField != nullptr);
+                if (m_externalLengthPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -116,7 +125,10 @@ public:
             auto prefix = m_parseObj.parseElemLengthPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalElemLengthPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalElemLengthPrefixField != nullptr);
+                if (m_externalElemLengthPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -157,7 +169,10 @@ public:
             auto suffix = m_parseObj.parseTermSuffixField();
             if (!suffix.parseExternalRef().empty()) {
                 m_externalTermSuffixField = m_generator.genFindField(suffix.parseExternalRef());
-                assert(m_externalTermSuffixField != nullptr);
+                if (m_externalTermSuffixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
diff --git a/lib/src/gen/GenOptionalField.cpp b/lib/src/gen/GenOptionalField.cpp
index e79fd20..2437c8e 100644
--- a/lib/src/gen/GenOptionalField.cpp
+++ b/lib/src/gen/GenOptionalField.cpp
@@ -46,7 +46,10 @@ public:
 
         if (!field.parseExternalRef().empty()) {
             m_externalField = m_generator.genFindField(field.parseExternalRef());
-            assert(m_externalField != nullptr);
+            if (m_externalField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenRefField.cpp b/lib/src/gen/GenRefField.cpp
index 37eea25..4718934 100644
--- a/lib/src/gen/GenRefField.cpp
+++ b/lib/src/gen/GenRefField.cpp
@@ -59,7 +59,6 @@ public:
 
         m_referencedField = m_generator.genFindField(fieldObj.parseExternalRef());
         if (m_referencedField == nullptr) {
-            assert(false);
             return false;
         }
 
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 8298189..b2a6558 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -568,7 +568,7 @@ GenSchema::GenFieldsAccessList GenSchema::genGetAllMessageIdFields() const
 const GenField* GenSchema::genFindField(const std::string& externalRef) const
 {
     auto* field = m_impl->genFindField(externalRef);
-    assert(field->genIsPrepared());
+    assert((field == nullptr) || (field->genIsPrepared()));
     return field;
 }
 
@@ -576,7 +576,7 @@ GenField* GenSchema::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -599,7 +599,7 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
diff --git a/lib/src/gen/GenStringField.cpp b/lib/src/gen/GenStringField.cpp
index b4257fd..a61a526 100644
--- a/lib/src/gen/GenStringField.cpp
+++ b/lib/src/gen/GenStringField.cpp
@@ -50,7 +50,10 @@ public:
         auto prefix = m_parseObj.parseLengthPrefixField();
         if (!prefix.parseExternalRef().empty()) {
             m_externalPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-            assert(m_externalPrefixField != nullptr);
+            if (m_externalPrefixField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenSyncLayer.cpp b/lib/src/gen/GenSyncLayer.cpp
index 0abd6db..b47eb55 100644
--- a/lib/src/gen/GenSyncLayer.cpp
+++ b/lib/src/gen/GenSyncLayer.cpp
@@ -51,7 +51,10 @@ public:
             assert(escField.parseValid());
             if (!escField.parseExternalRef().empty()) {
                 m_externalEscField = m_generator.genFindField(escField.parseExternalRef());
-                assert(m_externalEscField != nullptr);
+                if (m_externalEscField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
-- 
2.43.0


From 19eab5c8289936c66d9f65924469b69a4fd799f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 023/124] fix: Escape display names and string values put into
 literals of the generated C++ code

---
 app/commsdsl2comms/src/CommsEnumField.cpp   |  6 ++---
 app/commsdsl2comms/src/CommsField.cpp       |  2 +-
 app/commsdsl2comms/src/CommsMessage.cpp     |  2 +-
 app/commsdsl2comms/src/CommsSetField.cpp    |  2 +-
 app/commsdsl2comms/src/CommsStringField.cpp |  6 ++---
 lib/include/commsdsl/gen/util.h             |  1 +
 lib/src/gen/util.cpp                        | 25 +++++++++++++++++++++
 7 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index b2d019c..269bb4a 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -871,7 +871,7 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrToCppLiteral(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto valIter = values.find(v.second);
@@ -990,7 +990,7 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
             {
                 auto str =
                     "std::make_pair(ValueType::" +
-                    v.second + ", \"" + getDisplayNameFunc(infoPair) +
+                    v.second + ", \"" + util::genStrToCppLiteral(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
@@ -1075,7 +1075,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 auto str =
                     "std::make_pair(" +
                     getValueStrFunc(v.second) +
-                    ", \"" + getDisplayNameFunc(infoPair) +
+                    ", \"" + util::genStrToCppLiteral(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..27f3b57 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -754,7 +754,7 @@ std::string CommsField::commsCommonNameFuncCode() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(m_genField, generator)},
-        {"NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
+        {"NAME", util::genStrToCppLiteral(util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName()))},
         {"CUSTOM", m_customCode.m_name}
     };
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..bff337f 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -763,7 +763,7 @@ std::string CommsMessage::commsCommonNameFuncInternal() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"NAME", util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName())}
+        {"NAME", util::genStrToCppLiteral(util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName()))}
     };
 
     return util::genProcessTemplate(Templ, repl);
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 2f8cf22..af36e0c 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -451,7 +451,7 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrToCppLiteral(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto bitIter = bits.find(b.second);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 982673f..8a22db7 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -171,7 +171,7 @@ std::string CommsStringField::commsDefConstructCodeImpl() const
         "Base::setValue(typename Base::ValueType(&Str[0], StrSize - 1));\n";
 
     util::GenReplacementMap repl = {
-        {"STR", defaultValue}
+        {"STR", util::genStrToCppLiteral(defaultValue)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -307,7 +307,7 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        values.push_back("\"" + info.m_value + "\"");
+        values.push_back("\"" + util::genStrToCppLiteral(info.m_value) + "\"");
     }
 
     static const std::string Templ =
@@ -440,7 +440,7 @@ std::string CommsStringField::commsCompPrepValueStrImpl(const std::string& accSt
         valueTmp.assign(value, 1, std::string::npos);
     } while (false);
 
-    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + valueTmp + '\"');
+    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + util::genStrToCppLiteral(valueTmp) + '\"');
 }
 
 std::string CommsStringField::commsDefFieldOptsInternal() const
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a0525ea..a1415aa 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -42,6 +42,7 @@ bool genStrEndsWith(const std::string& str, const std::string& suffix);
 std::string genStrToUpper(const std::string& str);
 std::string genStrToLower(const std::string& str);
 std::string genStrToMacroName(const std::string& str);
+std::string genStrToCppLiteral(const std::string& str); // without enclosing quotes
 std::string genNumToString(std::uintmax_t value, unsigned hexWidth = 0U);
 std::string genNumToString(std::intmax_t value);
 std::string genNumToStringWithHexComment(std::intmax_t value);
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..8b5260d 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -339,6 +339,31 @@ std::string genStrToMacroName(const std::string& str)
     return result;
 }
 
+std::string genStrToCppLiteral(const std::string& str)
+{
+    std::string result;
+    for (auto ch : str) {
+        if ((ch == '\"') || (ch == '\\')) {
+            result += '\\';
+            result += ch;
+            continue;
+        }
+
+        auto val = static_cast<unsigned char>(ch);
+        if ((0x20 <= val) && (val != 0x7f)) {
+            result += ch;
+            continue;
+        }
+
+        // Always 3 octal digits, cannot be continued by the following character
+        result += '\\';
+        result += static_cast<char>('0' + ((val >> 6) & 0x7));
+        result += static_cast<char>('0' + ((val >> 3) & 0x7));
+        result += static_cast<char>('0' + (val & 0x7));
+    }
+    return result;
+}
+
 std::string genNumToString(std::uintmax_t value, unsigned hexWidth)
 {
     if (hexWidth == 0U) {
-- 
2.43.0


From 1b9106342c9bc9247d8bd8924f81b7f23449c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 024/124] fix: Avoid negation overflow when printing the lowest
 64 bit value in the generated code

---
 lib/src/gen/util.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 8b5260d..0eb947a 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -407,6 +407,11 @@ std::string genNumToString(std::intmax_t value)
         return stream.str();
     }
 
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        // The absolute value does not fit the signed type
+        return "(-0x7fffffffffffffffLL - 1)";
+    }
+
     std::stringstream stream;
     stream << std::hex << "-0x" << -value << "LL";
     return stream.str();
@@ -419,7 +424,7 @@ std::string genNumToStringWithHexComment(std::intmax_t value)
         stream << std::hex << "0x" << value;
     }
     else {
-        stream << std::hex << "-0x" << -value;
+        stream << std::hex << "-0x" << (0U - static_cast<std::uintmax_t>(value));
     }
 
     if ((std::numeric_limits<std::int32_t>::min() <= value) &&
@@ -427,6 +432,10 @@ std::string genNumToStringWithHexComment(std::intmax_t value)
         return genNumToString(value) + " /* " + stream.str() + " */";
     }
 
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        return genNumToString(value);
+    }
+
     if (value < 0) {
         stream << "LL";
         return stream.str();
-- 
2.43.0


From e3241585512bd0ba07f10e6faa9c5f20db4c8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 025/124] fix: Account for pseudo fields when calculating the
 length of the generated messages and fields

---
 app/commsdsl2comms/src/CommsField.cpp | 13 +++++++++++--
 app/commsdsl2comms/src/CommsField.h   |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 27f3b57..3f6d00a 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -215,7 +215,7 @@ bool CommsField::commsHasGeneratedReadCode() const
 
 std::size_t CommsField::commsMinLength() const
 {
-    if (commsIsVersionOptional()) {
+    if (commsIsVersionOptional() || commsIsPseudo()) {
         return 0U;
     }
 
@@ -224,6 +224,10 @@ std::size_t CommsField::commsMinLength() const
 
 std::size_t CommsField::commsMaxLength() const
 {
+    if (commsIsPseudo()) {
+        return 0U;
+    }
+
     if (m_genField.genParseObj().parseSemanticType() == commsdsl::parse::ParseField::ParseSemanticType::Length) {
         return comms::genMaxPossibleLength();
     }
@@ -677,6 +681,11 @@ CommsField::GenStringsList CommsField::commsExtraBareMetalDefaultOptionsImpl() c
     return GenStringsList();
 }
 
+bool CommsField::commsIsPseudo() const
+{
+    return m_forcedPseudo || m_genField.genParseObj().parseIsPseudo();
+}
+
 std::size_t CommsField::commsMinLengthImpl() const
 {
     return m_genField.genParseObj().parseMinLength();
@@ -826,7 +835,7 @@ void CommsField::commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& op
         util::genAddToStrList("comms::option::def::HasCustomWrite", opts);
     }
 
-    if (m_forcedPseudo || m_genField.genParseObj().parseIsPseudo()) {
+    if (commsIsPseudo()) {
         util::genAddToStrList("comms::option::def::EmptySerialization", opts);
     }
 
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 44a87af..8548996 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -237,6 +237,7 @@ private:
     std::string commsDefReadFuncCodeInternal() const;
     std::string commsDefWriteFuncCodeInternal() const;
     std::string commsDefRefreshFuncCodeInternal() const;
+    bool commsIsPseudo() const;
     std::string commsDefLengthFuncCodeInternal() const;
     std::string commsDefValidFuncCodeInternal() const;
     std::string commsDefMembersCodeInternal() const;
-- 
2.43.0


From 954493a6a73e84babdf6a569b428c50eca959eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 026/124] fix: Full path of the nested namespaces in the scopes
 and paths of the generated namespace members

---
 lib/src/gen/comms.cpp | 60 +++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 4343d97..0dab246 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -45,6 +45,21 @@ const std::string GenScopeSep("::");
 const std::string GenPathSep("/");
 const std::size_t GenMaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+std::vector<std::string> genNamespacePathInternal(const GenNamespace& ns)
+{
+    std::vector<std::string> result;
+    const GenElem* elem = &ns;
+    while ((elem != nullptr) && (elem->genElemType() == GenElem::GenType_Namespace)) {
+        if (!elem->genName().empty()) {
+            result.insert(result.begin(), elem->genName());
+        }
+
+        elem = elem->genGetParent();
+    }
+
+    return result;
+}
+
 std::string genScopeForElement(
     const std::string& name,
     const GenGenerator& generator,
@@ -372,10 +387,7 @@ std::string genScopeForInput(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -388,10 +400,7 @@ std::string genScopeForFactory(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
     subElems.push_back(strings::genFactoryNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -404,10 +413,7 @@ std::string genScopeForDispatch(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
     subElems.push_back(strings::genCispatchNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -431,10 +437,7 @@ std::string genScopeForNamespaceMember(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
 }
@@ -511,10 +514,7 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
 
     subElems.push_back(strings::genCispatchNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -522,10 +522,7 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -539,20 +536,14 @@ std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& ge
 
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
@@ -579,10 +570,7 @@ std::string genRelHeaderForChecksum(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForInput(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespacePathInternal(ns);
 
     subElems.push_back(strings::genInputNamespaceStr());
 
-- 
2.43.0


From d24c3dcac3566ca7573ea566bb8b3ac155a7713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 027/124] fix: Type of the interface field in comparison of two
 interface fields

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index eaae26b..ee142e8 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -767,7 +767,7 @@ std::string CommsOptionalField::commsDslCondToStringFieldFieldCompInternal(
     auto typeCast = leftField->commsCompValueCastType(leftAccStr);
     if (!typeCast.empty()) {
         auto accName = comms::genAccessName(leftField->commsGenField().genParseObj().parseName());
-        valueStr = "static_cast<typename Field_" + accName + "::" + typeCast + ">(" + valueStr + ")";
+        valueStr = "static_cast<typename " + commsGetFieldTypePrefixInternal(*leftField) + accName + "::" + typeCast + ">(" + valueStr + ")";
     }
 
     auto expr = leftPrefix + leftField->commsValueAccessStr(leftAccStr) + ' ' + op + ' ' + valueStr;
-- 
2.43.0


From 7ebabfb8e4fab37734c8c7d3b27bb5a58c861d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 028/124] fix: Valid ranges of the signed 8 byte long enum are
 not big unsigned

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 269bb4a..5c361ba 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1274,7 +1274,7 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        (type == commsdsl::parse::ParseEnumField::ParseType::Uintvar);
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
-- 
2.43.0


From 7c47dd38a150178658cd5b9aec7556b41c826f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 029/124] fix: length of lists, strings and data honours the
 prefix and element fields

---
 app/commsdsl2comms/src/CommsDataField.cpp   | 14 +++++++
 app/commsdsl2comms/src/CommsDataField.h     |  1 +
 app/commsdsl2comms/src/CommsListField.cpp   | 43 ++++++++++++++++++++-
 app/commsdsl2comms/src/CommsListField.h     |  1 +
 app/commsdsl2comms/src/CommsStringField.cpp | 14 +++++++
 app/commsdsl2comms/src/CommsStringField.h   |  1 +
 6 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 8858d31..e71ef34 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -423,6 +423,20 @@ CommsDataField::GenStringsList CommsDataField::commsExtraBareMetalDefaultOptions
         };
 }
 
+std::size_t CommsDataField::commsMinLengthImpl() const
+{
+    auto* prefixField = m_commsExternalPrefixField;
+    if (prefixField == nullptr) {
+        prefixField = m_commsMemberPrefixField;
+    }
+
+    if ((prefixField == nullptr) || (genDataFieldParseObj().parseFixedLength() != 0U)) {
+        return CommsBase::commsMinLengthImpl();
+    }
+
+    return prefixField->commsMinLength();
+}
+
 std::size_t CommsDataField::commsMaxLengthImpl() const
 {
     auto obj = genDataFieldParseObj();
diff --git a/app/commsdsl2comms/src/CommsDataField.h b/app/commsdsl2comms/src/CommsDataField.h
index 944b72d..86add10 100644
--- a/app/commsdsl2comms/src/CommsDataField.h
+++ b/app/commsdsl2comms/src/CommsDataField.h
@@ -55,6 +55,7 @@ protected:
     virtual std::string commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const override;
     virtual GenStringsList commsExtraDataViewDefaultOptionsImpl() const override;
     virtual GenStringsList commsExtraBareMetalDefaultOptionsImpl() const override;
+    virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsSizeAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
 
diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index b3b99fc..9866429 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -535,10 +535,51 @@ CommsListField::GenStringsList CommsListField::commsExtraBareMetalDefaultOptions
         };
 }
 
-std::size_t CommsListField::commsMaxLengthImpl() const
+std::size_t CommsListField::commsMinLengthImpl() const
 {
+    auto selectFunc =
+        [](const CommsField* externalField, const CommsField* memberField)
+        {
+            return (externalField != nullptr) ? externalField : memberField;
+        };
+
     auto obj = genListFieldParseObj();
     if (obj.parseFixedCount() != 0U) {
+        auto* elemField = selectFunc(m_commsExternalElementField, m_commsMemberElementField);
+        assert(elemField != nullptr);
+        auto result = obj.parseFixedCount() * elemField->commsMinLength();
+        auto* elemPrefixField = selectFunc(m_commsExternalElemLengthPrefixField, m_commsMemberElemLengthPrefixField);
+        if (elemPrefixField != nullptr) {
+            auto prefixCount = obj.parseElemFixedLength() ? 1U : obj.parseFixedCount();
+            result += prefixCount * elemPrefixField->commsMinLength();
+        }
+        return result;
+    }
+
+    auto* countPrefixField = selectFunc(m_commsExternalCountPrefixField, m_commsMemberCountPrefixField);
+    if (countPrefixField != nullptr) {
+        return countPrefixField->commsMinLength();
+    }
+
+    auto* lengthPrefixField = selectFunc(m_commsExternalLengthPrefixField, m_commsMemberLengthPrefixField);
+    if (lengthPrefixField != nullptr) {
+        return lengthPrefixField->commsMinLength();
+    }
+
+    return CommsBase::commsMinLengthImpl();
+}
+
+std::size_t CommsListField::commsMaxLengthImpl() const
+{
+    auto obj = genListFieldParseObj();
+    auto* elemField = m_commsExternalElementField;
+    if (elemField == nullptr) {
+        elemField = m_commsMemberElementField;
+    }
+
+    assert(elemField != nullptr);
+    if ((obj.parseFixedCount() != 0U) &&
+        (elemField->commsMaxLength() != comms::genMaxPossibleLength())) {
         return CommsBase::commsMaxLengthImpl();
     }
 
diff --git a/app/commsdsl2comms/src/CommsListField.h b/app/commsdsl2comms/src/CommsListField.h
index cc08a3e..cc65254 100644
--- a/app/commsdsl2comms/src/CommsListField.h
+++ b/app/commsdsl2comms/src/CommsListField.h
@@ -53,6 +53,7 @@ protected:
     virtual bool commsIsVersionDependentImpl() const override;
     virtual std::string commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const override;
     virtual GenStringsList commsExtraBareMetalDefaultOptionsImpl() const override;
+    virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsSizeAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
 
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 8a22db7..0fee544 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -375,6 +375,20 @@ std::string CommsStringField::commsSizeAccessStrImpl([[maybe_unused]] const std:
     return prefix + ".getValue().size()";
 }
 
+std::size_t CommsStringField::commsMinLengthImpl() const
+{
+    auto* prefixField = m_commsExternalPrefixField;
+    if (prefixField == nullptr) {
+        prefixField = m_commsMemberPrefixField;
+    }
+
+    if ((prefixField == nullptr) || (genStringFieldParseObj().parseFixedLength() != 0U)) {
+        return CommsBase::commsMinLengthImpl();
+    }
+
+    return prefixField->commsMinLength();
+}
+
 std::size_t CommsStringField::commsMaxLengthImpl() const
 {
     auto obj = genStringFieldParseObj();
diff --git a/app/commsdsl2comms/src/CommsStringField.h b/app/commsdsl2comms/src/CommsStringField.h
index 4d667d9..9711d32 100644
--- a/app/commsdsl2comms/src/CommsStringField.h
+++ b/app/commsdsl2comms/src/CommsStringField.h
@@ -54,6 +54,7 @@ protected:
     virtual std::string commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const override;
     virtual GenStringsList commsExtraDataViewDefaultOptionsImpl() const override;
     virtual GenStringsList commsExtraBareMetalDefaultOptionsImpl() const override;
+    virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsSizeAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
     virtual std::string commsCompValueCastTypeImpl(const std::string& accStr, const std::string& prefix) const override;
-- 
2.43.0


From e2a867d259371f47d81cf98c626ff4bf53191024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 030/124] fix: valid() of an enum searches values in the order
 of the underlying type

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 5c361ba..516d473 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -327,7 +327,7 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             prefix = "ValueType::";
         }
 
-        auto& revValues = obj.parseRevValues();
+        auto& revValues = genSortedRevValues(); // The binary search requires order of the actual type
         auto prevIter = revValues.end();
         for (auto iter = revValues.begin(); iter != revValues.end(); ++iter) {
 
@@ -335,7 +335,7 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
-            valuesStrings.push_back(prefix + iter->second);
+            valuesStrings.push_back(prefix + *iter->second);
             prevIter = iter;
         }
 
-- 
2.43.0


From 1604bdd5c0becacd8422849e2e4ab71a24b2424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 031/124] fix: no options for interface members

---
 app/commsdsl2comms/src/CommsField.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 3f6d00a..703460e 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -480,6 +480,11 @@ const CommsField* CommsField::commsFindSibling(const std::string& name) const
 
 bool CommsField::commsIsFieldCustomizable() const
 {
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // There are no options for the members of the interfaces
+        return false;
+    }
+
     auto& generator = static_cast<CommsGenerator&>(m_genField.genGenerator());
     auto level = generator.commsGetCustomizationLevel();
     if (level == CommsGenerator::CommsCustomizationLevel::Full) {
-- 
2.43.0


From 42c68ba5e773312e3ed6d80884b8390cc978d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 032/124] fix: destructor name of version dependent field

---
 app/commsdsl2comms/src/CommsField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 703460e..34405a6 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1574,7 +1574,7 @@ std::string CommsField::commsDefDestructCodeInternal() const
 
     static const std::string Templ =
         "/// @brief Destructor\n"
-        "~#^#CLASS_NAME#$##^#ORIG#$#()\n"
+        "~#^#CLASS_NAME#$##^#SUFFIX#$##^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
@@ -1584,6 +1584,10 @@ std::string CommsField::commsDefDestructCodeInternal() const
         {"BODY", std::move(body)}
     };
 
+    if (commsIsVersionOptional()) {
+        repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+    }
+
     if (commsIsExtended()) {
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
-- 
2.43.0


From aa027ca0fdc287c6b9324d2750ff4ec5f22f2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 033/124] fix: version dependency of fields through references
 is honoured

---
 app/commsdsl2comms/src/CommsListField.cpp     | 39 +++++++++----------
 app/commsdsl2comms/src/CommsOptionalField.cpp |  4 +-
 app/commsdsl2comms/src/CommsRefField.cpp      |  6 +++
 app/commsdsl2comms/src/CommsRefField.h        |  1 +
 4 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 9866429..3f1b784 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -459,27 +459,26 @@ bool CommsListField::commsIsLimitedCustomizableImpl() const
 
 bool CommsListField::commsIsVersionDependentImpl() const
 {
-    if ((m_commsMemberElementField != nullptr) && (m_commsMemberElementField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberCountPrefixField != nullptr) && (m_commsMemberCountPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberLengthPrefixField != nullptr) && (m_commsMemberLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberElemLengthPrefixField != nullptr) && (m_commsMemberElemLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberTermSuffixField != nullptr) && (m_commsMemberTermSuffixField->commsIsVersionDependent())) {
-        return true;
-    }
+    const CommsField* fields[] = {
+        m_commsMemberElementField,
+        m_commsExternalElementField,
+        m_commsMemberCountPrefixField,
+        m_commsExternalCountPrefixField,
+        m_commsMemberLengthPrefixField,
+        m_commsExternalLengthPrefixField,
+        m_commsMemberElemLengthPrefixField,
+        m_commsExternalElemLengthPrefixField,
+        m_commsMemberTermSuffixField,
+        m_commsExternalTermSuffixField,
+    };
 
-    return false;
+    return
+        std::any_of(
+            std::begin(fields), std::end(fields),
+            [](auto* f)
+            {
+                return (f != nullptr) && (f->commsIsVersionDependent());
+            });
 }
 
 std::string CommsListField::commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index ee142e8..b891738 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -477,7 +477,9 @@ std::string CommsOptionalField::commsDefBundledRefreshFuncBodyImpl(const CommsFi
 
 bool CommsOptionalField::commsIsVersionDependentImpl() const
 {
-    return (m_commsMemberField != nullptr) && (m_commsMemberField->commsIsVersionDependent());
+    return
+        ((m_commsMemberField != nullptr) && (m_commsMemberField->commsIsVersionDependent())) ||
+        ((m_commsExternalField != nullptr) && (m_commsExternalField->commsIsVersionDependent()));
 }
 
 std::string CommsOptionalField::commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const
diff --git a/app/commsdsl2comms/src/CommsRefField.cpp b/app/commsdsl2comms/src/CommsRefField.cpp
index e198e29..b625700 100644
--- a/app/commsdsl2comms/src/CommsRefField.cpp
+++ b/app/commsdsl2comms/src/CommsRefField.cpp
@@ -136,6 +136,12 @@ std::string CommsRefField::commsDefBaseClassImpl() const
     return util::genProcessTemplate(Templ, repl);
 }
 
+bool CommsRefField::commsIsVersionDependentImpl() const
+{
+    assert(m_commsReferencedField != nullptr);
+    return m_commsReferencedField->commsIsVersionDependent();
+}
+
 bool CommsRefField::commsIsLimitedCustomizableImpl() const
 {
     assert(m_commsReferencedField != nullptr);
diff --git a/app/commsdsl2comms/src/CommsRefField.h b/app/commsdsl2comms/src/CommsRefField.h
index 4bc54ff..4804221 100644
--- a/app/commsdsl2comms/src/CommsRefField.h
+++ b/app/commsdsl2comms/src/CommsRefField.h
@@ -47,6 +47,7 @@ protected:
     virtual std::string commsCommonMembersBaseClassImpl() const override;
     virtual CommsIncludesList commsDefIncludesImpl() const override;
     virtual std::string commsDefBaseClassImpl() const override;
+    virtual bool commsIsVersionDependentImpl() const override;
     virtual bool commsIsLimitedCustomizableImpl() const override;
     virtual bool commsDefHasNameFuncImpl() const override;
     virtual std::size_t commsMinLengthImpl() const override;
-- 
2.43.0


From 073a2a2e8c727dcc07a5e5f0d8145ce0b613f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 034/124] fix: floating point values are generated with all the
 significant digits

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index f61763b..7259f59 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -25,6 +25,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -91,7 +94,10 @@ std::string commsValueToString(double val, commsdsl::parse::ParseFloatField::Par
         return "std::numeric_limits<ValueType>::max()";
     }
 
-    return "static_cast<ValueType>(" + std::to_string(val) + ")";
+    // All the significant digits are needed to preserve the value
+    std::stringstream stream;
+    stream << std::setprecision(std::numeric_limits<double>::max_digits10) << val;
+    return "static_cast<ValueType>(" + stream.str() + ")";
 }
 
 std::string commsCmpToString(double val, commsdsl::parse::ParseFloatField::ParseType type)
-- 
2.43.0


From 18f509cfece50852d4cc9d5202503d2161cb55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 035/124] fix: overflow in the values limit of 64-bit unsigned
 enum

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 516d473..411b836 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -144,7 +144,8 @@ CommsEnumField::GenStringsList CommsEnumField::commsEnumValues() const
         valuesStrings.push_back(createValueStrFunc(genLastValueStr(), revValues.back().first, "Last defined value."));
 
         if (genHasValuesLimit()) {
-            valuesStrings.push_back(createValueStrFunc(genValuesLimitStr(), revValues.back().first + 1, "Upper limit for defined values."));
+            auto limit = static_cast<std::intmax_t>(static_cast<std::uintmax_t>(revValues.back().first) + 1U);
+            valuesStrings.push_back(createValueStrFunc(genValuesLimitStr(), limit, "Upper limit for defined values."));
         }
     }
 
-- 
2.43.0


From 07918e396de7c632d103920def49019415680c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:30 +0000
Subject: [PATCH 036/124] fix: version dependency of containers consistent with
 the version checks of enum and int

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 9 ++++-----
 app/commsdsl2comms/src/CommsIntField.cpp  | 9 +++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 411b836..f739056 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -464,16 +464,15 @@ bool CommsEnumField::commsIsVersionDependentImpl() const
         return false;
     }
 
-    unsigned minVersion = obj.parseSinceVersion();
-    unsigned maxVersion = obj.parseDeprecatedSince();
+    // Must be consistent with the storage and checks of the version
     auto iter =
         std::find_if(
             m_validRanges.begin(), m_validRanges.end(),
-            [minVersion, maxVersion](auto& elem)
+            [](auto& elem)
             {
                 return
-                    (minVersion < elem.m_sinceVersion) ||
-                    (elem.m_deprecatedSince < maxVersion);
+                    (elem.m_sinceVersion != 0U) ||
+                    (elem.m_deprecatedSince != commsdsl::parse::ParseProtocol::parseNotYetDeprecated());
             });
 
     return (iter != m_validRanges.end());
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index dcdb02f..f05e365 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -364,16 +364,13 @@ bool CommsIntField::commsIsVersionDependentImpl() const
         return false;
     }
 
-    unsigned minVersion = obj.parseSinceVersion();
-    unsigned maxVersion = obj.parseDeprecatedSince();
+    // Must be consistent with the storage and checks of the version
     auto iter =
         std::find_if(
             validRanges.begin(), validRanges.end(),
-            [minVersion, maxVersion](auto& elem)
+            [this](auto& elem)
             {
-                return
-                    (minVersion < elem.m_sinceVersion) ||
-                    (elem.m_deprecatedSince < maxVersion);
+                return genGenerator().genIsElementOptional(elem.m_sinceVersion, elem.m_deprecatedSince, true);
             });
 
     return (iter != validRanges.end());
-- 
2.43.0


From 21d613ac0adee8092ba0f615464fbc0407bd7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:57 +0000
Subject: [PATCH 037/124] fix: limit the minimal and maximal values of <int>
 with serOffset by its type

---
 lib/src/parse/ParseIntFieldImpl.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index fd994de..238f96f 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -737,9 +737,22 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
             val -= m_state.m_serOffset;
         };
 
+    // The values are limited by the type that holds them as well
+    auto limitByTypeFunc =
+        [this]()
+        {
+            if (parseIsBigUnsigned(m_state.m_type)) {
+                return;
+            }
+
+            m_state.m_minValue = std::max(m_state.m_minValue, m_state.m_typeAllowedMinValue);
+            m_state.m_maxValue = std::min(m_state.m_maxValue, m_state.m_typeAllowedMaxValue);
+        };
+
     if (!parseIsTypeUnsigned(m_state.m_type)) {
         updateMinValueFunc(m_state.m_minValue);
         updateMaxValueFunc(m_state.m_maxValue);
+        limitByTypeFunc();
         return true;
     }
 
@@ -751,6 +764,7 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
     m_state.m_minValue = static_cast<std::uint64_t>(minValueTmp);
     m_state.m_maxValue = static_cast<std::uint64_t>(maxValueTmp);
+    limitByTypeFunc();
 
     return true;
 }
-- 
2.43.0


From 92075b360edc6bd1ca5719dc4f4c66b81f16df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:04 +0000
Subject: [PATCH 038/124] fix: maximal length of a fixed size list takes pseudo
 members into account

---
 app/commsdsl2comms/src/CommsListField.cpp | 36 ++++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 3f1b784..09c910a 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -570,19 +570,39 @@ std::size_t CommsListField::commsMinLengthImpl() const
 
 std::size_t CommsListField::commsMaxLengthImpl() const
 {
+    auto selectFunc =
+        [](const CommsField* externalField, const CommsField* memberField)
+        {
+            return (externalField != nullptr) ? externalField : memberField;
+        };
+
     auto obj = genListFieldParseObj();
-    auto* elemField = m_commsExternalElementField;
-    if (elemField == nullptr) {
-        elemField = m_commsMemberElementField;
+    auto* elemField = selectFunc(m_commsExternalElementField, m_commsMemberElementField);
+    assert(elemField != nullptr);
+
+    auto count = obj.parseFixedCount();
+    if (count == 0U) {
+        return comms::genMaxPossibleLength();
     }
 
-    assert(elemField != nullptr);
-    if ((obj.parseFixedCount() != 0U) &&
-        (elemField->commsMaxLength() != comms::genMaxPossibleLength())) {
-        return CommsBase::commsMaxLengthImpl();
+    auto mulFunc =
+        [](std::size_t len, std::size_t factor)
+        {
+            if ((len != 0U) && ((comms::genMaxPossibleLength() / len) <= factor)) {
+                return comms::genMaxPossibleLength();
+            }
+
+            return len * factor;
+        };
+
+    auto result = mulFunc(elemField->commsMaxLength(), count);
+    auto* elemPrefixField = selectFunc(m_commsExternalElemLengthPrefixField, m_commsMemberElemLengthPrefixField);
+    if (elemPrefixField != nullptr) {
+        auto prefixCount = obj.parseElemFixedLength() ? 1U : count;
+        result = comms::genAddLength(result, mulFunc(elemPrefixField->commsMaxLength(), prefixCount));
     }
 
-    return comms::genMaxPossibleLength();
+    return result;
 }
 
 std::string CommsListField::commsSizeAccessStrImpl([[maybe_unused]] const std::string& accStr, const std::string& prefix) const
-- 
2.43.0


From c3735f6186a60b76a0ecd024dd612f5020c18e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 039/124] fix: input bundles are generated for namespaces with
 frames and no messages

---
 app/commsdsl2comms/src/CommsNamespace.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index 0979199..35cc325 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -425,11 +425,15 @@ bool CommsNamespace::genWriteImpl() const
         return false;
     }
 
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
+    if (!genHasMessagesRecursive()) {
+        // The definition of every frame relies on the presence of the default bundle
+        return m_input.commsWrite();
+    }
+
     return
         m_dispatch.commsWrite() &&
         m_factory.commsWrite() &&
-- 
2.43.0


From b7cfa825e250535f22924533a4f51d2a3fdc2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:58 +0000
Subject: [PATCH 040/124] fix: Conditions on fields missing in the generated
 version

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index b891738..683b1b9 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -169,6 +169,9 @@ std::string CommsOptionalField::commsDslCondToString(
                 return val;
             };
 
+        static const std::string NeverStr("false");
+        static const std::string AlwaysStr("true");
+
         commsdsl::parse::ParseOptCondExpr exprCond(cond);
         auto leftInfo = exprCond.parseLeftInfo();
         auto& op = opFunc(exprCond.parseOp());
@@ -192,9 +195,8 @@ std::string CommsOptionalField::commsDslCondToString(
             }
 
             if (leftField == nullptr) {
-                [[maybe_unused]] static constexpr bool Should_not_happen = false;
-                assert(Should_not_happen);
-                return strings::genEmptyString();
+                // Does not exist in the generated version of the protocol
+                return NeverStr;
             }
 
             std::string remLeft;
@@ -226,9 +228,7 @@ std::string CommsOptionalField::commsDslCondToString(
             }
 
             if (rightField == nullptr) {
-                [[maybe_unused]] static constexpr bool Should_not_happen = false;
-                assert(Should_not_happen);
-                return strings::genEmptyString();
+                return NeverStr;
             }
 
             std::string remRight;
@@ -259,9 +259,11 @@ std::string CommsOptionalField::commsDslCondToString(
         }
 
         if (rightField == nullptr) {
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-            return strings::genEmptyString();
+            // Does not exist in the generated version of the protocol
+            if ((rightInfo.m_mode == ParseAccMode::Exists) && (!op.empty())) {
+                return AlwaysStr;
+            }
+            return NeverStr;
         }
 
         assert(rightInfo.m_mode != ParseAccMode::Size);
-- 
2.43.0


From cc02b9e5932ed9da36189113eedbe424fe06ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:58 +0000
Subject: [PATCH 041/124] fix: Default value of set when bits are redefined
 between versions

---
 app/commsdsl2comms/src/CommsSetField.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index af36e0c..8d73626 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -26,6 +26,7 @@
 #include <cassert>
 #include <iterator>
 #include <limits>
+#include <map>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -718,6 +719,8 @@ void CommsSetField::commsAddDefaultValueOptInternal(commsdsl::gen::util::GenStri
         defaultValue = ~defaultValue;
     }
 
+    auto& gen = genGenerator();
+    std::map<unsigned, unsigned> knownBits; // Index to version of the latest definition
     for (auto& bitInfo : obj.parseBits()) {
         if (CommsMaxBits <= bitInfo.second.m_idx) {
             [[maybe_unused]] static constexpr bool Should_not_happen = false;
@@ -725,6 +728,18 @@ void CommsSetField::commsAddDefaultValueOptInternal(commsdsl::gen::util::GenStri
             continue;
         }
 
+        auto sinceVersion = bitInfo.second.m_sinceVersion;
+        if (!gen.genDoesElementExist(sinceVersion, bitInfo.second.m_deprecatedSince, false)) {
+            continue;
+        }
+
+        // The same bit can be redefined in the later version
+        auto knownIter = knownBits.insert(std::make_pair(bitInfo.second.m_idx, sinceVersion)).first;
+        if (sinceVersion < knownIter->second) {
+            continue;
+        }
+        knownIter->second = sinceVersion;
+
         auto bitMask = static_cast<decltype(defaultValue)>(1U) << bitInfo.second.m_idx;
         if (bitInfo.second.m_defaultValue) {
             defaultValue |= bitMask;
-- 
2.43.0


From 6b9485f2f6ceed2819f41055f41f36a618d3cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:19 +0000
Subject: [PATCH 042/124] fix: Valid ranges of floating point fields that
 appeared before the field itself

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 7259f59..38666be 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -809,8 +809,6 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedCondition
     while (verDepIter != validRanges.end()) {
         auto fromVersion = verDepIter->m_sinceVersion;
         auto untilVersion = verDepIter->m_deprecatedSince;
-        assert(minVersion <= fromVersion);
-        assert((minVersion < fromVersion) || (untilVersion < maxVersion));
 
         auto nextIter =
             std::find_if(
-- 
2.43.0


From ab369ef6d2487daa63336a587091df033c8d35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 043/124] fix: Special values missing in the generated version

---
 lib/src/gen/GenFloatField.cpp | 9 +++++++--
 lib/src/gen/GenIntField.cpp   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenFloatField.cpp b/lib/src/gen/GenFloatField.cpp
index 22c95ab..664e26b 100644
--- a/lib/src/gen/GenFloatField.cpp
+++ b/lib/src/gen/GenFloatField.cpp
@@ -35,11 +35,16 @@ public:
     using ParseFloatField = GenFloatField::ParseFloatField;
     using GenSpecialsList = GenFloatField::GenSpecialsList;
 
-    bool genPrepare(ParseFloatField parseObj)
+    bool genPrepare(ParseFloatField parseObj, const GenGenerator& generator)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                // Does not exist in the generated version of the protocol
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -128,7 +133,7 @@ const GenFloatField::GenSpecialsList& GenFloatField::genSpecialsSortedByValue()
 
 bool GenFloatField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genFloatFieldParseObj());
+    return m_impl->genPrepare(genFloatFieldParseObj(), genGenerator());
 }
 
 GenFloatField::GenFieldRefInfo GenFloatField::genProcessInnerRefImpl(const std::string& refStr) const
diff --git a/lib/src/gen/GenIntField.cpp b/lib/src/gen/GenIntField.cpp
index 9d6eacd..cb94f28 100644
--- a/lib/src/gen/GenIntField.cpp
+++ b/lib/src/gen/GenIntField.cpp
@@ -34,11 +34,16 @@ public:
     using ParseIntField = GenIntField::ParseIntField;
     using GenSpecialsList = GenIntField::GenSpecialsList;
 
-    bool genPrepare(ParseIntField parseObj)
+    bool genPrepare(ParseIntField parseObj, const GenGenerator& generator)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                // Does not exist in the generated version of the protocol
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -105,7 +110,7 @@ const GenIntField::GenSpecialsList& GenIntField::genSpecialsSortedByValue() cons
 
 bool GenIntField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genIntFieldParseObj());
+    return m_impl->genPrepare(genIntFieldParseObj(), genGenerator());
 }
 
 GenIntField::GenFieldRefInfo GenIntField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From f52e6b0617dd40b9d3fb8d5cddd12240785de7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 044/124] fix: Enum values missing in the generated version

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 63 +++++++++++++++++------
 app/commsdsl2comms/src/CommsEnumField.h   |  2 +
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f739056..e866e0b 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -74,13 +74,7 @@ CommsEnumField::GenStringsList CommsEnumField::commsEnumValues() const
             continue;
         }
 
-        bool exists =
-            genGenerator().genDoesElementExist(
-                iter->second.m_sinceVersion,
-                iter->second.m_deprecatedSince,
-                false);
-
-        if (!exists) {
+        if (!commsDoesValueExistInternal(iter->second, false)) {
             continue;
         }
 
@@ -328,6 +322,7 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             prefix = "ValueType::";
         }
 
+        auto& values = obj.parseValues();
         auto& revValues = genSortedRevValues(); // The binary search requires order of the actual type
         auto prevIter = revValues.end();
         for (auto iter = revValues.begin(); iter != revValues.end(); ++iter) {
@@ -336,6 +331,12 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
+            auto valIter = values.find(*iter->second);
+            assert(valIter != values.end());
+            if (!commsDoesValueExistInternal(valIter->second, true)) {
+                continue;
+            }
+
             valuesStrings.push_back(prefix + *iter->second);
             prevIter = iter;
         }
@@ -558,6 +559,39 @@ bool CommsEnumField::commsVerifyInnerRefImpl(const std::string& refStr) const
     return values.find(refStr) != values.end();
 }
 
+bool CommsEnumField::commsDoesValueExistInternal(const ParseEnumField::ParseValueInfo& info, bool deprecatedRemoved) const
+{
+    // The field itself can be newer than the generated version of the protocol, or not used by
+    // the minimal remote version, in such case it still retains its values.
+    auto sinceVersion = info.m_sinceVersion;
+    if (sinceVersion <= comms::genSinceVersionOf(*this)) {
+        sinceVersion = 0U;
+    }
+
+    auto deprecatedSince = info.m_deprecatedSince;
+    if (genEnumFieldParseObj().parseDeprecatedSince() <= deprecatedSince) {
+        deprecatedSince = commsdsl::parse::ParseProtocol::parseNotYetDeprecated();
+    }
+
+    return genGenerator().genDoesElementExist(sinceVersion, deprecatedSince, deprecatedRemoved);
+}
+
+CommsEnumField::ParseEnumField::ParseRevValues CommsEnumField::commsExistingRevValuesInternal() const
+{
+    auto obj = genEnumFieldParseObj();
+    auto& values = obj.parseValues();
+    ParseEnumField::ParseRevValues result;
+    for (auto& v : obj.parseRevValues()) {
+        auto iter = values.find(v.second);
+        assert(iter != values.end());
+        if (commsDoesValueExistInternal(iter->second, false)) {
+            result.insert(result.end(), v);
+        }
+    }
+
+    return result;
+}
+
 bool CommsEnumField::commsPrepareValidRangesInternal()
 {
     auto obj = genEnumFieldParseObj();
@@ -570,12 +604,7 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
     auto& values = obj.parseValues();
     m_validRanges.reserve(values.size());
     for (auto& v : values) {
-        bool exists =
-            gen.genDoesElementExist(
-                v.second.m_sinceVersion,
-                v.second.m_deprecatedSince,
-                !validCheckVersion);
-        if (!exists) {
+        if (!commsDoesValueExistInternal(v.second, !validCheckVersion)) {
             continue;
         }
 
@@ -681,7 +710,7 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
 bool CommsEnumField::commsIsDirectValueNameMappingInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     assert(!revValues.empty());
     auto firstIter = revValues.begin();
     if (firstIter->first < 0) {
@@ -836,7 +865,7 @@ std::string CommsEnumField::commsCommonValueNamesMapFuncCodeInternal() const
 std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     auto& values = obj.parseValues();
     assert(!revValues.empty());
     auto& thisSchema = genGenerator().genSchemaOf(*this);
@@ -946,7 +975,7 @@ std::string CommsEnumField::commsCommonValueNamesMapBinSearchBodyInternal() cons
 std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     assert(!revValues.empty());
 
     std::vector<std::uintmax_t> valuesSeq;
@@ -1031,7 +1060,7 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
 std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     auto& values = obj.parseValues();
     assert(!revValues.empty());
     auto* msgIdNs = commsNamespaceForMsgId();
diff --git a/app/commsdsl2comms/src/CommsEnumField.h b/app/commsdsl2comms/src/CommsEnumField.h
index 0532838..e9cf615 100644
--- a/app/commsdsl2comms/src/CommsEnumField.h
+++ b/app/commsdsl2comms/src/CommsEnumField.h
@@ -73,6 +73,8 @@ private:
 
     using CommsValidRangesList = std::vector<CommsRangeInfo>;
 
+    bool commsDoesValueExistInternal(const ParseEnumField::ParseValueInfo& info, bool deprecatedRemoved) const;
+    ParseEnumField::ParseRevValues commsExistingRevValuesInternal() const;
     bool commsPrepareValidRangesInternal();
     bool commsIsDirectValueNameMappingInternal() const;
     std::string commsCommonEnumInternal() const;
-- 
2.43.0


From caabcc46a73e0a7f679334c28c3456835787a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 045/124] fix: Valid values of strings and data that are all
 missing in the generated version

---
 app/commsdsl2comms/src/CommsDataField.cpp   | 5 +++++
 app/commsdsl2comms/src/CommsStringField.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index e71ef34..79aa883 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -349,6 +349,11 @@ std::string CommsDataField::commsDefValidFuncBodyImpl() const
         values.push_back("MapElem(std::begin(" + name + "), std::end(" + name + "))");
     }
 
+    if (values.empty()) {
+        // None of them exists in the generated version of the protocol
+        return std::string();
+    }
+
     static const std::string Templ =
         "if (!Base::valid()) {\n"
         "    return false;\n"
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 0fee544..2f0aa10 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -310,6 +310,11 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
         values.push_back("\"" + util::genStrToCppLiteral(info.m_value) + "\"");
     }
 
+    if (values.empty()) {
+        // None of them exists in the generated version of the protocol
+        return std::string();
+    }
+
     static const std::string Templ =
         "if (!Base::valid()) {\n"
         "    return false;\n"
-- 
2.43.0


From e59c9e3ce3e15a421581466f480257d12191c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 046/124] fix: Names of bits missing in the generated version

---
 app/commsdsl2comms/src/CommsSetField.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 8d73626..80d9da0 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -421,7 +421,19 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
 {
     auto obj = genSetFieldParseObj();
     auto& bits = obj.parseBits();
-    auto& revBits = obj.parseRevBits();
+    auto revBits = obj.parseRevBits(); // copy
+    for (auto iter = revBits.begin(); iter != revBits.end();) {
+        auto bitIter = bits.find(iter->second);
+        assert(bitIter != bits.end());
+        if (genGenerator().genDoesElementExist(bitIter->second.m_sinceVersion, bitIter->second.m_deprecatedSince, false)) {
+            ++iter;
+            continue;
+        }
+
+        // Does not exist in the generated version of the protocol
+        iter = revBits.erase(iter);
+    }
+
     std::intmax_t nextBit = 0;
     GenStringsList names;
     for (auto& b : revBits) {
-- 
2.43.0


From 005cd30297f249268f416fda046b1fe464f3bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 047/124] fix: Version checks of ranges missing in the
 generated version

---
 app/commsdsl2comms/src/CommsIntField.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index f05e365..781c474 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -277,7 +277,9 @@ std::string CommsIntField::commsDefValidFuncBodyImpl() const
             validRanges.begin(), validRanges.end(),
             [this](auto& r)
             {
-                return !this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true);
+                return
+                    (!this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true)) ||
+                    (!this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true));
             }),
         validRanges.end());
 
-- 
2.43.0


From 56b0d7d01cc13ac7848539f8213d18f13a4e91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 048/124] fix: Validity of sets when bits are missing for the
 minimal remote version

---
 app/commsdsl2comms/src/CommsSetField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 80d9da0..dfa9482 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -159,7 +159,7 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        if (!gen.genDoesElementExist(b.second.m_sinceVersion, b.second.m_deprecatedSince, false)) {
+        if (!gen.genDoesElementExist(b.second.m_sinceVersion, b.second.m_deprecatedSince, true)) {
             continue; // already handled
         }
 
-- 
2.43.0


From 11873429a8295b5aa6aa9773a33304a22d7cb5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 049/124] fix: Code copied from elements of other schemas

---
 lib/src/parse/ParseFieldImpl.cpp     | 4 ++--
 lib/src/parse/ParseInterfaceImpl.cpp | 2 +-
 lib/src/parse/ParseMessageImpl.cpp   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index 02dad23..e12b61a 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1092,7 +1092,7 @@ bool ParseFieldImpl::parseCheckReuse()
             break;
         }
 
-        m_state.m_copyCodeFrom = valueStr;
+        m_state.m_copyCodeFrom = m_protocol.parseGetMultipleSchemasEnabled() ? field->parseExternalRef(true) : valueStr;
     } while (false);
     return parseReuseImpl(*field);
 }
@@ -1384,7 +1384,7 @@ bool ParseFieldImpl::parseUpdateCopyOverrideCodeFrom()
         return false;
     }
 
-    m_state.m_copyCodeFrom = iter->second;
+    m_state.m_copyCodeFrom = m_protocol.parseGetMultipleSchemasEnabled() ? field->parseExternalRef(true) : iter->second;
     return true;
 }
 
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 608c5f5..830d6a2 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -369,7 +369,7 @@ bool ParseInterfaceImpl::parseCheckReuse()
             break;
         }
 
-        m_state.m_copyCodeFrom = valueStr;
+        m_state.m_copyCodeFrom = m_protocol.parseGetMultipleSchemasEnabled() ? iFace->parseExternalRef(true) : valueStr;
     } while (false);
     return true;
 }
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 2559953..744110e 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -476,7 +476,7 @@ bool ParseMessageImpl::parseCheckReuse()
             break;
         }
 
-        m_state.m_copyCodeFrom = valueStr;
+        m_state.m_copyCodeFrom = m_protocol.parseGetMultipleSchemasEnabled() ? msg->parseExternalRef(true) : valueStr;
     } while (false);
 
     return true;
@@ -1202,7 +1202,7 @@ bool ParseMessageImpl::parseUpdateCopyOverrideCodeFrom()
         return false;
     }
 
-    m_state.m_copyCodeFrom = iter->second;
+    m_state.m_copyCodeFrom = m_protocol.parseGetMultipleSchemasEnabled() ? msg->parseExternalRef(true) : iter->second;
     return true;
 }
 
-- 
2.43.0


From 26a59c7336cb82198c1028bc479d4da2d500737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 050/124] fix: Options of the member fields of frame layers

---
 app/commsdsl2comms/src/CommsLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 94c65d1..24725ae 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -442,7 +442,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             "///     @ref #^#SCOPE#$# layer field.\n"
             "struct #^#CLASS_NAME#$##^#SUFFIX#$##^#EXT#$#\n"
             "{\n"
-            "    #^#FIELD_OPT#$#\n"
+            "    #^#FIELD_OPTS#$#\n"
             "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
         util::GenReplacementMap repl = {
-- 
2.43.0


From 4358011a379135d8465665a20f6137f117db8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 051/124] fix: Main namespace in the options of the payload
 layer fields

---
 app/commsdsl2comms/src/CommsPayloadLayer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsPayloadLayer.cpp b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
index cd03cbc..b31e304 100644
--- a/app/commsdsl2comms/src/CommsPayloadLayer.cpp
+++ b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
@@ -137,11 +137,12 @@ std::string CommsPayloadLayer::commsCustomFieldDataViewOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& gen = CommsGenerator::commsCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
-        {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"SCOPE", comms::genScopeFor(*this, gen)},
+        {"OPT_SCOPE", comms::genScopeFor(*this, gen, gen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -161,11 +162,12 @@ std::string CommsPayloadLayer::commsCustomFieldBareMetalOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& gen = CommsGenerator::commsCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
-        {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"SCOPE", comms::genScopeFor(*this, gen)},
+        {"OPT_SCOPE", comms::genScopeFor(*this, gen, gen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From f575d0cf66f9e5cceff1ad7d48431cfc2020ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:35 +0000
Subject: [PATCH 052/124] fix: Message factory options for frames of namespaces
 without messages

---
 app/commsdsl2comms/src/CommsCustomLayer.cpp | 15 ++++++++++++---
 app/commsdsl2comms/src/CommsIdLayer.cpp     |  7 ++++++-
 app/commsdsl2comms/src/CommsNamespace.cpp   | 12 +++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsCustomLayer.cpp b/app/commsdsl2comms/src/CommsCustomLayer.cpp
index 43fb273..62fdc6a 100644
--- a/app/commsdsl2comms/src/CommsCustomLayer.cpp
+++ b/app/commsdsl2comms/src/CommsCustomLayer.cpp
@@ -102,12 +102,21 @@ CommsCustomLayer::GenStringsList CommsCustomLayer::commsExtraBareMetalDefaultOpt
 
 CommsCustomLayer::GenStringsList CommsCustomLayer::commsExtraMsgFactoryDefaultOptionsImpl() const
 {
-    if (commsDefHasInputMessagesImpl()) {
+    do {
+        if (!commsDefHasInputMessagesImpl()) {
+            break;
+        }
+
+        auto alias = commsMsgFactoryAliasInOptions(genGetParent());
+        if (alias.empty()) {
+            break;
+        }
+
         return
             GenStringsList{
-                "comms::option::app::MsgFactoryTempl<" + commsMsgFactoryAliasInOptions(genGetParent()) + ">"
+                "comms::option::app::MsgFactoryTempl<" + alias + ">"
             };
-    }
+    } while (false);
 
     return CommsBase::commsExtraMsgFactoryDefaultOptionsImpl();
 }
diff --git a/app/commsdsl2comms/src/CommsIdLayer.cpp b/app/commsdsl2comms/src/CommsIdLayer.cpp
index d26eb1b..cde9138 100644
--- a/app/commsdsl2comms/src/CommsIdLayer.cpp
+++ b/app/commsdsl2comms/src/CommsIdLayer.cpp
@@ -100,9 +100,14 @@ CommsIdLayer::GenStringsList CommsIdLayer::commsExtraBareMetalDefaultOptionsImpl
 
 CommsIdLayer::GenStringsList CommsIdLayer::commsExtraMsgFactoryDefaultOptionsImpl() const
 {
+    auto alias = commsMsgFactoryAliasInOptions(genGetParent());
+    if (alias.empty()) {
+        return GenStringsList();
+    }
+
     return
         GenStringsList{
-            "comms::option::app::MsgFactoryTempl<" + commsMsgFactoryAliasInOptions(genGetParent()) + ">"
+            "comms::option::app::MsgFactoryTempl<" + alias + ">"
         };
 }
 
diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index 35cc325..dccbe2c 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -368,6 +368,12 @@ const CommsField* CommsNamespace::commsFindValidInterfaceReferencedField(const s
 
 std::string CommsNamespace::commsMsgFactoryAliasType() const
 {
+    if ((!genHasFramesRecursive()) ||
+        (!genHasMessagesRecursive())) {
+        // There is no message factory in this namespace
+        return std::string();
+    }
+
     auto result = util::genStrReplace(comms::genScopeFor(*this, genGenerator(), false, true), "::" , "_");
     if (!genName().empty()) {
         result += "_";
@@ -378,8 +384,8 @@ std::string CommsNamespace::commsMsgFactoryAliasType() const
 
 std::string CommsNamespace::commsMsgFactoryAliasDef(const std::string& namePrefix, const std::string& typeSuffix) const
 {
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    auto type = commsMsgFactoryAliasType();
+    if (type.empty()) {
         return std::string();
     }
 
@@ -391,7 +397,7 @@ std::string CommsNamespace::commsMsgFactoryAliasDef(const std::string& namePrefi
     util::GenReplacementMap repl = {
         {"PREFIX", namePrefix},
         {"TYPE_SUFFIX", typeSuffix},
-        {"TYPE", commsMsgFactoryAliasType()},
+        {"TYPE", std::move(type)},
         {"SCOPE", m_factory.commsScope(namePrefix)},
     };
 
-- 
2.43.0


From 95c53ce61791d6e286bd52d2f1651bf560be38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:38 +0000
Subject: [PATCH 053/124] fix: Validity check used by the generated read when
 the comments about code injection are requested

---
 app/commsdsl2comms/src/CommsMessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index bff337f..04821d4 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1367,8 +1367,8 @@ std::string CommsMessage::commsDefReadFuncInternal() const
 
                 util::GenReplacementMap failOnInvalidRepl;
 
-                bool hasGeneratedValid = commsDefValidFuncInternal().empty();
-                if (hasGeneratedValid) {
+                bool hasOwnValid = m_customCode.m_hasValid || (!commsDefOrigValidCodeInternal().empty());
+                if (!hasOwnValid) {
                     failOnInvalidRepl["VALID_PREFIX"] = "Base::";
                 }
 
-- 
2.43.0


From 9c8e0f5efc5006410c3fa86ac573ec910ff0ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 054/124] fix: Includes of the float fields with special values

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 38666be..d5d7844 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -215,6 +215,14 @@ CommsFloatField::CommsIncludesList CommsFloatField::commsCommonIncludesImpl() co
     CommsIncludesList result;
 
     auto& specials = genSpecialsSortedByValue();
+    if (!specials.empty()) {
+        result.insert(result.end(),
+            {
+                "<type_traits>",
+                "<utility>"
+            });
+    }
+
     bool hasLimits =
         std::any_of(
             specials.begin(), specials.end(),
-- 
2.43.0


From c938ffad264fb77fbf5c484ad8b65dc70f3e7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:41 +0000
Subject: [PATCH 055/124] fix: No unused alias in the dispatch functions
 without any message

---
 app/commsdsl2comms/src/CommsDispatch.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDispatch.cpp b/app/commsdsl2comms/src/CommsDispatch.cpp
index eab8655..cf8f79f 100644
--- a/app/commsdsl2comms/src/CommsDispatch.cpp
+++ b/app/commsdsl2comms/src/CommsDispatch.cpp
@@ -132,7 +132,6 @@ const std::string& commsSingleMessagePerIdTempl()
         "    TMsg& msg,\n"
         "    THandler& handler) -> decltype(handler.handle(msg))\n"
         "{\n"
-        "    using InterfaceType = typename std::decay<decltype(msg)>::type;\n"
         "    switch(static_cast<std::intmax_t>(id)) {\n"
         "    #^#CASES#$#\n"
         "    default:\n"
@@ -236,7 +235,6 @@ const std::string& commsMultipleMessagesPerIdTempl()
         "    TMsg& msg,\n"
         "    THandler& handler) -> decltype(handler.handle(msg))\n"
         "{\n"
-        "    using InterfaceType = typename std::decay<decltype(msg)>::type;\n"
         "    switch(static_cast<std::intmax_t>(id)) {\n"
         "    #^#CASES#$#\n"
         "    default:\n"
@@ -656,6 +654,7 @@ std::string CommsDispatch::commsCasesCodeInternal(const CommsMessagesMap& map) c
         static const std::string MsgCaseTempl =
             "case #^#MSG_ID#$#:\n"
             "{\n"
+            "    using InterfaceType = typename std::decay<decltype(msg)>::type;\n"
             "    using MsgType = #^#MSG_TYPE#$#<InterfaceType, TProtOptions>;\n"
             "    return handler.handle(static_cast<MsgType&>(msg));\n"
             "}";
-- 
2.43.0


From 1d347ff2b09c2eff4dceb2a54cab264bfa26a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:41 +0000
Subject: [PATCH 056/124] fix: Documentation of the protocol without frames

---
 app/commsdsl2comms/src/CommsDoxygen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..c881dd9 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -567,7 +567,9 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "///";
 
     auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
+    if (frames.empty()) {
+        return strings::genEmptyString();
+    }
 
     util::GenStringsList list;
     for (auto* f : frames) {
-- 
2.43.0


From 412527b7970e4cf3bf00d5ecfeb40d96dcb6b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:52 +0000
Subject: [PATCH 057/124] fix: Do not copy code injection snippets to the
 output as extra sources

---
 app/commsdsl2comms/src/CommsGenerator.cpp           | 1 +
 app/commsdsl2emscripten/src/EmscriptenGenerator.cpp | 2 ++
 app/commsdsl2latex/src/LatexGenerator.cpp           | 3 +++
 app/commsdsl2swig/src/SwigGenerator.cpp             | 2 ++
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp      | 1 +
 5 files changed, 9 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsGenerator.cpp b/app/commsdsl2comms/src/CommsGenerator.cpp
index b913926..59e8d98 100644
--- a/app/commsdsl2comms/src/CommsGenerator.cpp
+++ b/app/commsdsl2comms/src/CommsGenerator.cpp
@@ -377,6 +377,7 @@ bool CommsGenerator::commsWriteExtraFilesInternal() const
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genConstructFileSuffixStr(),
+        strings::genConstructBodyFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
index 842b157..8120f93 100644
--- a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
@@ -400,6 +400,8 @@ bool EmscriptenGenerator::emscriptenWriteExtraFilesInternal() const
         strings::genReplaceFileSuffixStr(),
         strings::genExtendFileSuffixStr(),
         strings::genPublicFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPrependFileSuffixStr(),
diff --git a/app/commsdsl2latex/src/LatexGenerator.cpp b/app/commsdsl2latex/src/LatexGenerator.cpp
index e7ff875..877ad27 100644
--- a/app/commsdsl2latex/src/LatexGenerator.cpp
+++ b/app/commsdsl2latex/src/LatexGenerator.cpp
@@ -371,6 +371,8 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
     const std::vector<std::string> ReservedExt = {
         strings::genReplaceFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
+        strings::genPrependFileSuffixStr(),
+        strings::genDocumentFileSuffixStr(),
         strings::genPackageFileSuffixStr(),
         strings::genPackageAppendFileSuffixStr(),
         strings::genContentFileSuffixStr(),
@@ -381,6 +383,7 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
         strings::genMacroFileSuffixStr(),
         strings::genMacroAppendFileSuffixStr(),
         strings::genPdfFileSuffixStr(),
+        strings::genPdfAppendFileSuffixStr(),
         strings::genHtmlFileSuffixStr(),
         strings::genHtmlAppendFileSuffixStr(),
         strings::genHtmlCmdAppendFileSuffixStr(),
diff --git a/app/commsdsl2swig/src/SwigGenerator.cpp b/app/commsdsl2swig/src/SwigGenerator.cpp
index 3de953f..5c93fc1 100644
--- a/app/commsdsl2swig/src/SwigGenerator.cpp
+++ b/app/commsdsl2swig/src/SwigGenerator.cpp
@@ -331,6 +331,8 @@ bool SwigGenerator::swigWriteExtraFilesInternal() const
         strings::genReplaceFileSuffixStr(),
         strings::genExtendFileSuffixStr(),
         strings::genPublicFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPrependFileSuffixStr(),
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..282d528 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -452,6 +452,7 @@ bool ToolsQtGenerator::toolsWriteExtraFilesInternal() const
         strings::genPublicFileSuffixStr(),
         strings::genProtectedFileSuffixStr(),
         strings::genPrivateFileSuffixStr(),
+        strings::genReadFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genSourcesFileSuffixStr(),
-- 
2.43.0


From 3813bb2d7b6e7ad034e1ea4c926e5a1fbedeef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:52 +0000
Subject: [PATCH 058/124] fix: Return type of the construct function replaced
 by the injected one

---
 app/commsdsl2comms/src/CommsField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 34405a6..aad29a8 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1552,7 +1552,7 @@ std::string CommsField::commsDefConstructPrivateCodeInternal() const
     }
 
     static const std::string Templ =
-        "construct#^#ORIG#$#()\n"
+        "void construct#^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
-- 
2.43.0


From d0d14585698d32f46b83965b6136ac10f9b19b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 059/124] fix: Path of the injected code of the default
 interface

---
 lib/src/gen/GenSchema.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index b2a6558..dc94c05 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -264,6 +264,9 @@ public:
 
     bool genCreateAll()
     {
+        assert(!m_parseObj.parseName().empty());
+        m_origNamespace = util::genStrToName(m_parseObj.parseName());
+
         auto namespaces = m_parseObj.parseNamespaces();
         m_namespaces.reserve(namespaces.size());
         for (auto& n : namespaces) {
@@ -299,8 +302,7 @@ public:
             m_versionDependentCode = genAnyInterfaceHasVersion();
         }
 
-        assert(!m_parseObj.parseName().empty());
-        m_origNamespace = util::genStrToName(m_parseObj.parseName());
+        assert(!m_origNamespace.empty());
         if (m_mainNamespace.empty()) {
             m_mainNamespace = m_origNamespace;
         }
-- 
2.43.0


From ac08200378b756387b14623741dd3d7ba9a89644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 060/124] fix: Support of the CMakeLists.txt.append

---
 app/commsdsl2comms/src/CommsCmake.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsCmake.cpp b/app/commsdsl2comms/src/CommsCmake.cpp
index 380a837..6f1f2df 100644
--- a/app/commsdsl2comms/src/CommsCmake.cpp
+++ b/app/commsdsl2comms/src/CommsCmake.cpp
@@ -131,11 +131,13 @@ bool CommsCmake::commsWriteInternal() const
         "        FILES ${CMAKE_BINARY_DIR}/${OPT_CMAKE_EXPORT_CONFIG_NAME}ConfigVersion.cmake\n"
         "        DESTINATION ${CMAKE_INSTALL_LIBDIR}/${OPT_CMAKE_EXPORT_CONFIG_NAME}/cmake/)\n"
         "endif ()\n"
+        "#^#APPEND#$#\n"
     ;
 
     util::GenReplacementMap repl = {
         {"NAME", m_generator.genProtocolSchema().genMainNamespace()},
         {"CAP_NAME", util::genStrToUpper(m_generator.genProtocolSchema().genMainNamespace())},
+        {"APPEND", m_generator.genReadScriptCodeInjectCode(strings::genCmakeListsFileStr() + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
     stream << util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From 63b08ca5c23a1c7f80c91900a52c2a422a6a1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 061/124] fix: Replacement of the whole field definition file

---
 app/commsdsl2comms/src/CommsField.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index aad29a8..4e3865f 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1233,8 +1233,18 @@ bool CommsField::commsWriteDefInternal() const
         return false;
     }
 
+    bool codeReplaced = false;
+    auto inputRelPath = comms::genInputCodeRelPathFor(m_genField, generator);
+    auto replaceCode = generator.genReadCodeInjectCode(inputRelPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &codeReplaced);
+    if (codeReplaced) {
+        stream << replaceCode;
+        stream.flush();
+        return stream.good();
+    }
+
     static const std::string Templ =
         "#^#GENERATED#$#\n"
+        "#^#REPLACE#$#\n"
         "/// @file\n"
         "/// @brief Contains definition of <b>\"#^#FIELD_NAME#$#\"</b> field.\n"
         "\n"
@@ -1248,6 +1258,7 @@ bool CommsField::commsWriteDefInternal() const
 
     util::GenReplacementMap repl = {
         {"GENERATED", CommsGenerator::commsFileGeneratedComment()},
+        {"REPLACE", std::move(replaceCode)},
         {"FIELD_NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
         {"INCLUDES", util::genStrListToString(includes, "\n", "\n")},
         {"EXTRA_INCLUDES", m_customCode.m_inc},
-- 
2.43.0


From d57241674a28b08f516ad12e657c962a38f18ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 062/124] fix: Copied directories having the schema name as the
 prefix of their names

---
 lib/src/gen/GenGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 0709aa2..1355d6a 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1660,12 +1660,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
                 break;
             }
 
-            auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs).string();
+            auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs / "").string();
             if (!util::genStrStartsWith(relPath, srcPrefix)) {
                 break;
             }
 
-            auto dstPrefix = (fs::path(strings::genIncludeDirStr()) / protSchema.genMainNamespace()).string();
+            auto dstPrefix = (fs::path(strings::genIncludeDirStr()) / protSchema.genMainNamespace() / "").string();
             relPath = dstPrefix + std::string(relPath, srcPrefix.size());
         } while (false);
 
-- 
2.43.0


From 4798f05ef14da413284d3173938d17eb29a89e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 063/124] fix: Documentation of the C interface without frames

---
 app/commsdsl2c/src/CDoxygen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..1dd4a23 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -375,6 +375,10 @@ bool CDoxygen::cWriteMainpageInternal() const
 
 std::string CDoxygen::cInputDocInternal() const
 {
+    if (m_frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     util::GenStringsList frameItems;
     for (auto* f : m_frames) {
         static const std::string Templ =
-- 
2.43.0


From 47529bd0ee0d22415fa9080193adc2ae79862706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 064/124] fix: Emscripten bindings of the frames without input
 messages

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 3f5207b..0d0576d 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -107,6 +107,12 @@ bool EmscriptenFrame::genPrepareImpl()
             break;
         }
 
+        if ((emscriptenFindInputNamespace() == nullptr) &&
+            (!EmscriptenNamespace::emscriptenCast(iFace->genParentNamespace())->emscriptenHasInput())) {
+            genGenerator().genLogger().genDebug("No input messages for frame " + genName());
+            break;
+        }
+
         m_validFrame =
             std::all_of(
                 m_emscriptenLayers.begin(), m_emscriptenLayers.end(),
-- 
2.43.0


From 8e09e39c14f17bbfcc8310226e5ad2f899efd041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:01 +0000
Subject: [PATCH 065/124] fix: Abort when generating CMakeLists.txt of the swig
 bindings

---
 app/commsdsl2swig/src/SwigCmake.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..6fe8e17 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -117,7 +117,7 @@ bool SwigCmake::swigWriteInternal() const
         "        $<$<CXX_COMPILER_ID:Clang>:-ftemplate-depth=2048 -fconstexpr-depth=4096 -fbracket-depth=2048>\n"
         "    )\n"
         "endforeach()\n\n"
-        "#^#APPEND#$#"
+        "#^#APPEND#$#\n"
         ;
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From 934ab896d1d1927108a7a9a66407d9f159730ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:10 +0000
Subject: [PATCH 066/124] fix: Swig bindings of the messages and frames without
 suitable interface

---
 app/commsdsl2swig/src/SwigFrame.cpp   |  6 ++++++
 app/commsdsl2swig/src/SwigMessage.cpp | 14 +++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 7a36d92..1f26a42 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -101,6 +101,12 @@ bool SwigFrame::genPrepareImpl()
         m_swigLayers.push_back(const_cast<SwigLayer*>(swigLayer));
     }
 
+    if (swigInterface() == nullptr) {
+        genGenerator().genLogger().genDebug("No valid interface for frame " + genName());
+        m_validFrame = false;
+        return true;
+    }
+
     m_validFrame =
         std::all_of(
             m_swigLayers.begin(), m_swigLayers.end(),
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index 6e80416..08b117b 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -46,7 +46,8 @@ SwigMessage::~SwigMessage() = default;
 
 void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -55,7 +56,8 @@ void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 
 void SwigMessage::swigAddCode(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -131,7 +133,8 @@ void SwigMessage::swigAddCode(GenStringsList& list) const
 
 void SwigMessage::swigAddDef(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -164,6 +167,11 @@ bool SwigMessage::genPrepareImpl()
 bool SwigMessage::genWriteImpl() const
 {
     assert(genIsReferenced());
+    if (swigGetInterfaceInternal() == nullptr) {
+        genGenerator().genLogger().genDebug("No valid interface for message " + genName());
+        return true;
+    }
+
     auto filePath = comms::genHeaderPathFor(*this, genGenerator());
     auto dirPath = util::genPathUp(filePath);
     assert(!dirPath.empty());
-- 
2.43.0


From 40d1875a71fb8567f8e024fb30d7342250123ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:52 +0000
Subject: [PATCH 067/124] fix: Swig bindings of the frames without input
 messages

---
 app/commsdsl2swig/src/SwigFrame.cpp     | 4 ++--
 app/commsdsl2swig/src/SwigNamespace.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 1f26a42..6698efd 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -101,8 +101,8 @@ bool SwigFrame::genPrepareImpl()
         m_swigLayers.push_back(const_cast<SwigLayer*>(swigLayer));
     }
 
-    if (swigInterface() == nullptr) {
-        genGenerator().genLogger().genDebug("No valid interface for frame " + genName());
+    if ((swigInterface() == nullptr) || (swigInputInternal() == nullptr)) {
+        genGenerator().genLogger().genDebug("No valid interface or input messages for frame " + genName());
         m_validFrame = false;
         return true;
     }
diff --git a/app/commsdsl2swig/src/SwigNamespace.cpp b/app/commsdsl2swig/src/SwigNamespace.cpp
index 77e26d1..c269bd7 100644
--- a/app/commsdsl2swig/src/SwigNamespace.cpp
+++ b/app/commsdsl2swig/src/SwigNamespace.cpp
@@ -194,7 +194,7 @@ const SwigInputMessages* SwigNamespace::swigInputMessages() const
 
 bool SwigNamespace::swigHasInput() const
 {
-    return (genHasFramesRecursive() && genHasMessagesRecursive());
+    return genHasFramesRecursive() && genHasMessagesRecursive() && (swigInterface() != nullptr);
 }
 
 const SwigInterface* SwigNamespace::swigInterface() const
-- 
2.43.0


From f8cd8170cb573c669f198b9f9e2830c50080d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:52 +0000
Subject: [PATCH 068/124] fix: Emscripten bindings of the frames without
 suitable interface

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 0d0576d..ff65ff3 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -100,6 +100,7 @@ bool EmscriptenFrame::genPrepareImpl()
         m_emscriptenLayers.push_back(const_cast<EmscriptenLayer*>(emscriptenLayer));
     }
 
+    m_validFrame = false;
     auto* iFace = emscriptenInterfaceInternal();
     do {
         if (iFace == nullptr) {
-- 
2.43.0


From 09c987958564a308bad323dbe5028ad619ac4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 069/124] fix: Path of the code injected into the message
 factories

---
 lib/include/commsdsl/gen/comms.h | 2 +-
 lib/src/gen/comms.cpp            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/commsdsl/gen/comms.h b/lib/include/commsdsl/gen/comms.h
index b3629e4..2231434 100644
--- a/lib/include/commsdsl/gen/comms.h
+++ b/lib/include/commsdsl/gen/comms.h
@@ -120,7 +120,7 @@ std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& g
 std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator);
 std::string genRelHeaderForOptions(const std::string& name, const GenGenerator& generator, bool addMainNamespace = true);
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 0dab246..620e809 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -520,12 +520,12 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     auto subElems = genNamespacePathInternal(ns);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
-    return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 // TODO: remove
@@ -721,7 +721,7 @@ std::string genInputCodeRelPathForFactory(const std::string& name, const GenGene
     return
         strings::genIncludeDirStr() + '/' +
         generator.genCurrentSchema().genOrigNamespace() + '/' +
-        comms::genRelHeaderForFactory(name, generator, ns);
+        comms::genRelHeaderForFactory(name, generator, ns, false);
 }
 
 std::string genInputCodeAbsPathForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
-- 
2.43.0


From b1c0c027d981e74d85817a6cc18a9f8ffde78411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:15 +0000
Subject: [PATCH 070/124] fix: Abort on unknown messages, interfaces and frames
 given in the command line

---
 lib/src/gen/GenSchema.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index dc94c05..c1c7815 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -165,9 +165,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -178,9 +176,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genGindMessage(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
@@ -208,9 +204,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -221,9 +215,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindFrame(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
@@ -255,9 +247,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindInterface(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
-- 
2.43.0


From fc64d719f4f2519043804e08cf605cc97a3f34bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:15 +0000
Subject: [PATCH 071/124] fix: Empty arguments in the command line

---
 lib/src/gen/GenProgramOptions.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 4bd4376..8037e77 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -100,11 +100,6 @@ public:
             const char* nextToken = argv[idx];
             assert(nextToken != nullptr);
             std::string nextStr(nextToken);
-            if (nextStr.empty()) {
-                assert(false); // Should not happen
-                continue;
-            }
-
             if (opt != nullptr) {
                 assert(opt->m_hasParam);
                 opt->m_value = std::move(nextStr);
@@ -112,6 +107,10 @@ public:
                 continue;
             }
 
+            if (nextStr.empty()) {
+                continue;
+            }
+
             if (nextStr[0] != '-') {
                 m_args.push_back(nextStr);
                 continue;
-- 
2.43.0


From cfccb3b54851338e795721122d584f688031f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:15 +0000
Subject: [PATCH 072/124] fix: Abort when the code is copied from an element
 that is not available

---
 app/commsdsl2comms/src/CommsField.cpp     | 1 -
 app/commsdsl2comms/src/CommsInterface.cpp | 1 -
 app/commsdsl2comms/src/CommsMessage.cpp   | 1 -
 3 files changed, 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 4e3865f..e99439a 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -891,7 +891,6 @@ bool CommsField::commsCopyCodeFromInternal()
     if (origField == nullptr) {
         gen.genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
-        assert(false); // Should not happen
         return false;
     }
 
diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 7365a18..702af58 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -205,7 +205,6 @@ bool CommsInterface::commsCopyCodeFromInternal()
     if (origIface == nullptr) {
         genGenerator().genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
-        assert(false); // Should not happen
         return false;
     }
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 04821d4..f6e0a6a 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -303,7 +303,6 @@ bool CommsMessage::commsCopyCodeFromInternal()
     if (origMsg == nullptr) {
         genGenerator().genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
-        assert(false); // Should not happen
         return false;
     }
 
-- 
2.43.0


From 63b694b964d620a5ba45db0b833d742f1dbefd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 073/124] fix: Overflow in the limit of the enum values

---
 app/commsdsl2c/src/CEnumField.cpp       | 3 ++-
 app/commsdsl2swig/src/SwigEnumField.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2c/src/CEnumField.cpp b/app/commsdsl2c/src/CEnumField.cpp
index f5386c5..98f14fc 100644
--- a/app/commsdsl2c/src/CEnumField.cpp
+++ b/app/commsdsl2c/src/CEnumField.cpp
@@ -185,7 +185,8 @@ CEnumField::GenStringsList CEnumField::cEnumValues(const std::string& forcedPref
         valuesStrings.push_back(createValueStrFunc(prefix + genLastValueStr(), revValues.back().first, "Last defined value."));
 
         if (genHasValuesLimit()) {
-            valuesStrings.push_back(createValueStrFunc(prefix + genValuesLimitStr(), revValues.back().first + 1, "Upper limit for defined values."));
+            auto limit = static_cast<std::intmax_t>(static_cast<std::uintmax_t>(revValues.back().first) + 1U);
+            valuesStrings.push_back(createValueStrFunc(prefix + genValuesLimitStr(), limit, "Upper limit for defined values."));
 
             auto parseObj = genEnumFieldParseObj();
             valuesStrings.push_back(
diff --git a/app/commsdsl2swig/src/SwigEnumField.cpp b/app/commsdsl2swig/src/SwigEnumField.cpp
index 3a77829..db1e257 100644
--- a/app/commsdsl2swig/src/SwigEnumField.cpp
+++ b/app/commsdsl2swig/src/SwigEnumField.cpp
@@ -94,7 +94,8 @@ SwigEnumField::GenStringsList SwigEnumField::swigEnumValues() const
         valuesStrings.push_back(createValueStrFunc(genLastValueStr(), revValues.back().first, "Last defined value."));
 
         if (genHasValuesLimit()) {
-            valuesStrings.push_back(createValueStrFunc(genValuesLimitStr(), revValues.back().first + 1, "Upper limit for defined values."));
+            auto limit = static_cast<std::intmax_t>(static_cast<std::uintmax_t>(revValues.back().first) + 1U);
+            valuesStrings.push_back(createValueStrFunc(genValuesLimitStr(), limit, "Upper limit for defined values."));
         }
     }
 
-- 
2.43.0


From ecd8546e057f7dc0dca1bfd1cd87d16ef177a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 074/124] fix: Abort of test and tools_qt generators when there
 are no frames

---
 app/commsdsl2test/src/TestCmake.cpp            | 6 +++++-
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..0d40506 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,7 +56,11 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    assert(!allFrames.empty());
+    if (allFrames.empty()) {
+        m_testGenerator.genLogger().genError("The schema does not define any frame.");
+        return false;
+    }
+
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 282d528..be67171 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("The schema does not define any frame.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From 1c1e0df5c50069474f6e6e0ac8c0e196394a5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 075/124] fix: Abort on unknown element inside the length or
 count prefix

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseListFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index 026ee86..68fd492 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\" inside the \"" << common::parseLengthPrefixStr() << "\" element.";
         return false;
     }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index f93fdaa..d8682ff 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -714,8 +714,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\" inside the \"" << type << "\" element.";
         return false;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index 9d73b36..b7e2478 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\" inside the \"" << common::parseLengthPrefixStr() << "\" element.";
         return false;
     }
 
-- 
2.43.0


From e853c4c7e4ae2974e7b53df24cc7a8db7f42394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 076/124] fix: Undefined behaviour on empty field element of
 optional fields and layers

---
 lib/src/parse/ParseLayerImpl.cpp         | 7 +++++++
 lib/src/parse/ParseOptionalFieldImpl.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index 9d60257..6c27cba 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,6 +567,13 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" element "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index 2f5fb1c..e7b5c40 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -490,6 +490,13 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" element "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
-- 
2.43.0


From 6658888a7f88795b637b5e22893d484d3ca4e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 077/124] fix: Invalid platform name is reported as an error

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..e9bac2a 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -712,8 +712,8 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     static const std::string InvalidChars("+-,");
     auto pos = name.find_first_of(InvalidChars);
     if (pos != std::string::npos) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(node) <<
-            "Invalid platform name (" << name << ".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+            "Invalid platform name (" << name << ").";
         return false;
     }
 
-- 
2.43.0


From 8aeabe1cb9024d82599b796de984cc08f9b69eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 078/124] fix: Abort on empty references

---
 lib/src/parse/ParseProtocolImpl.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index e9bac2a..ab44be1 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -126,7 +126,6 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -141,7 +140,6 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -156,7 +154,6 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 422f76d124adcd07211a576b06c6efa253cb7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 079/124] fix: Abort on invalid reference to the data value

---
 lib/src/parse/ParseDataFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index 68fd492..5847ab2 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -544,7 +544,7 @@ const ParseFieldImpl* ParseDataFieldImpl::parseGetPrefixField() const
 bool ParseDataFieldImpl::parseStrToValue(const std::string& str, ParseValueType& val) const
 {
     if ((!str.empty()) && (str[0] == common::parseStringRefPrefix()) && parseProtocol().parseIsFieldValueReferenceSupported()) {
-        return parseProtocol().parseStrToData(std::string(str, 1), false, val);
+        return parseProtocol().parseStrToData(std::string(str, 1), true, val);
     }
 
     std::string adjStr = str;
-- 
2.43.0


From 33a651dcbd8acc2843fdc11f622fd4b1cd0ade02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 080/124] fix: Abort on empty external references

---
 lib/src/parse/ParseProtocolImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index ab44be1..648f628 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -868,7 +868,10 @@ bool ParseProtocolImpl::parseStrToValue(const std::string& ref, bool checkRef, P
 
 std::pair<const ParseSchemaImpl*, std::string> ParseProtocolImpl::parseExternalRef(const std::string& externalRef) const
 {
-    assert(!externalRef.empty());
+    if (externalRef.empty()) {
+        return std::make_pair(nullptr, externalRef);
+    }
+
     if (externalRef[0] != common::parseSchemaRefPrefix()) {
         return std::make_pair(&parseCurrSchema(), externalRef);
     }
-- 
2.43.0


From ff5116c6484095e6681c64ea94b4438a11ef21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 081/124] fix: Removed property of the fields that are not
 deprecated

---
 lib/src/parse/ParseFieldImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index e12b61a..f31dcd9 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1237,6 +1237,7 @@ bool ParseFieldImpl::parseUpdateVersions()
             parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
                 "Property \"" << common::parseRemovedStr() << "\" is not applicable to "
                 "non deprecated fields";
+            deprecatedRemoved = false;
         }
     } while (false);
 
-- 
2.43.0


From 755dbc03337ec4d6a6831ea44d782a499d44dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 082/124] fix: Abort on unknown element inside the replace
 element

---
 lib/src/parse/ParseFieldImpl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f31dcd9..7b5b1d1 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1132,10 +1132,8 @@ bool ParseFieldImpl::parseCheckReplace()
         std::string fieldKind(reinterpret_cast<const char*>(fieldNode->name));
         auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
         if (!field) {
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-            parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
-                "Internal error, failed to create objects for member fields to replace.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+                "Unknown field type \"" << fieldKind << "\" inside the \"" << common::parseReplaceStr() << "\" element.";
             return false;
         }
 
-- 
2.43.0


From 9bad6ce92f84b7655d5f7b52e7177b3933689fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 083/124] fix: Overflow of the serialisation offset limits

---
 lib/src/parse/ParseIntFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 238f96f..e7a1449 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -696,7 +696,7 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
         auto diff = (m_state.m_typeAllowedMaxValue - m_state.m_typeAllowedMinValue);
         assert(diff <= static_cast<decltype(diff)>(std::numeric_limits<std::uint32_t>::max()));
-        if (std::abs(m_state.m_serOffset) < diff) {
+        if ((-diff < m_state.m_serOffset) && (m_state.m_serOffset < diff)) {
             break;
         }
 
-- 
2.43.0


From a8df54a71de6376cb0cb89efafc6fa0ff99e110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 084/124] fix: References to values of namespaces and members
 in conditions

---
 app/commsdsl2comms/src/CommsIntField.cpp | 80 +++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 781c474..cd8cde5 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -19,6 +19,9 @@
 #include "CommsGenerator.h"
 
 #include "commsdsl/gen/comms.h"
+#include "commsdsl/gen/GenBitfieldField.h"
+#include "commsdsl/gen/GenBundleField.h"
+#include "commsdsl/gen/GenRefField.h"
 #include "commsdsl/gen/util.h"
 #include "commsdsl/gen/strings.h"
 
@@ -427,9 +430,45 @@ std::string CommsIntField::commsCompPrepValueStrImpl([[maybe_unused]] const std:
         auto pos = value.find_first_of(".");
         auto fieldRef = value; // copy
         std::string valueSubstr;
+        std::size_t namePos = 0U;
+        auto* schema = &gen.genCurrentSchema();
 
         if (pos < value.size() && (value[0] == strings::genSchemaRefPrefix())) {
-            pos = value.find_first_of(".", pos + 1); // find second
+            auto& allSchemas = gen.genSchemas();
+            auto schemaIter =
+                std::find_if(
+                    allSchemas.begin(), allSchemas.end(),
+                    [&value, pos](auto& s)
+                    {
+                        return value.compare(1, pos - 1, s->genName()) == 0;
+                    });
+
+            if (schemaIter != allSchemas.end()) {
+                schema = schemaIter->get();
+            }
+
+            namePos = pos + 1;
+            pos = value.find_first_of(".", namePos); // find second
+        }
+
+        // skip the names of the namespaces
+        auto* namespaces = &(schema->genNamespaces());
+        while (pos < value.size()) {
+            auto nsIter =
+                std::find_if(
+                    namespaces->begin(), namespaces->end(),
+                    [&value, namePos, pos](auto& ns)
+                    {
+                        return (!ns->genName().empty()) && (value.compare(namePos, pos - namePos, ns->genName()) == 0);
+                    });
+
+            if (nsIter == namespaces->end()) {
+                break;
+            }
+
+            namespaces = &((*nsIter)->genNamespaces());
+            namePos = pos + 1;
+            pos = value.find_first_of(".", namePos);
         }
 
         if (pos < value.size()) {
@@ -437,11 +476,48 @@ std::string CommsIntField::commsCompPrepValueStrImpl([[maybe_unused]] const std:
             valueSubstr = value.substr(pos + 1);
         }
 
-        auto field = gen.genFindField(fieldRef);
+        auto* field = static_cast<const commsdsl::gen::GenField*>(gen.genFindField(fieldRef));
         if (field == nullptr) {
             break;
         }
 
+        // the reference can lead to the member fields
+        while (!valueSubstr.empty()) {
+            auto kind = field->genParseObj().parseKind();
+            if (kind == commsdsl::parse::ParseField::ParseKind::Ref) {
+                field = static_cast<const commsdsl::gen::GenRefField*>(field)->genReferencedField();
+                assert(field != nullptr);
+                continue;
+            }
+
+            const commsdsl::gen::GenField::GenFieldsList* members = nullptr;
+            if (kind == commsdsl::parse::ParseField::ParseKind::Bundle) {
+                members = &(static_cast<const commsdsl::gen::GenBundleField*>(field)->genMembers());
+            }
+            else if (kind == commsdsl::parse::ParseField::ParseKind::Bitfield) {
+                members = &(static_cast<const commsdsl::gen::GenBitfieldField*>(field)->genMembers());
+            }
+            else {
+                break;
+            }
+
+            auto memNameEnd = std::min(valueSubstr.find_first_of("."), valueSubstr.size());
+            auto memIter =
+                std::find_if(
+                    members->begin(), members->end(),
+                    [&valueSubstr, memNameEnd](auto& m)
+                    {
+                        return valueSubstr.compare(0, memNameEnd, m->genParseObj().parseName()) == 0;
+                    });
+
+            if (memIter == members->end()) {
+                break;
+            }
+
+            field = memIter->get();
+            valueSubstr.erase(0, memNameEnd + 1);
+        }
+
         auto* commsField = dynamic_cast<const CommsField*>(field);
         assert(commsField != nullptr);
         auto newValue = commsField->commsCompPrepValueStr(std::string(), valueSubstr);
-- 
2.43.0


From 4ac411fb8b8070aeab4d9b9ba27440362b6fdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 085/124] fix: Abort on references ending with the dot in the
 command line

---
 lib/src/gen/GenNamespace.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 318def3..49c37a6 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -744,7 +744,10 @@ const GenField* GenNamespace::genFindField(const std::string& externalRef) const
 
 const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) const
 {
-    assert(!externalRef.empty());
+    if (externalRef.empty()) {
+        return nullptr;
+    }
+
     auto pos = externalRef.find_first_of('.');
     std::string nsName;
     if (pos != std::string::npos) {
@@ -791,7 +794,10 @@ const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) c
 
 const GenFrame* GenNamespace::genFindFrame(const std::string& externalRef) const
 {
-    assert(!externalRef.empty());
+    if (externalRef.empty()) {
+        return nullptr;
+    }
+
     auto pos = externalRef.find_first_of('.');
     std::string nsName;
     if (pos != std::string::npos) {
-- 
2.43.0


From 917f46a5cda2ffaa38fe92f6d8c6fd6a0489fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 086/124] fix: Ignored failures to write the options files

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From f46eacf0f679b7fcce7da13269b80748c66352a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 087/124] fix: Ignored failure to update namespace of the
 copied file

---
 lib/src/gen/GenGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 1355d6a..ee374c9 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1704,6 +1704,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.flush();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to write " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From 23534bfec18ef4b8ca4fe97c5dc08f55d46ee093 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 088/124] fix: Code injected from the working directory without
 being requested

---
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp | 16 ++++++++++++----
 lib/src/gen/GenGenerator.cpp                | 12 ++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index d0cef92..b05ae3f 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -423,8 +423,12 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
         return false;
     }
 
-    auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
-    auto replaceCode = util::genReadFileContents(replaceFilePath);
+    auto& codeDir = m_toolsGenerator.genGetCodeDir();
+    std::string replaceCode;
+    if (!codeDir.empty()) {
+        replaceCode = util::genReadFileContents(util::genPathAddElem(codeDir, relPath + strings::genReplaceFileSuffixStr()));
+    }
+
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.flush();
@@ -488,8 +492,12 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
         return false;
     }
 
-    auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
-    auto replaceCode = util::genReadFileContents(replaceFilePath);
+    auto& codeDir = m_toolsGenerator.genGetCodeDir();
+    std::string replaceCode;
+    if (!codeDir.empty()) {
+        replaceCode = util::genReadFileContents(util::genPathAddElem(codeDir, relPath + strings::genReplaceFileSuffixStr()));
+    }
+
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.flush();
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index ee374c9..c66b2da 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1410,11 +1410,7 @@ std::string GenGenerator::genReadCodeInjectCode(
     bool* realCodeInjected,
     const std::string& forcedCommentPrefix) const
 {
-    auto path = genGetCodeDir();
-    if (!path.empty()) {
-        path += '/';
-    }
-    path += relPath;
+    auto& codeDir = genGetCodeDir();
 
     auto updateRealCodeInjected =
         [realCodeInjected](bool val)
@@ -1424,7 +1420,11 @@ std::string GenGenerator::genReadCodeInjectCode(
             }
         };
 
-    auto code = util::genReadFileContents(path);
+    std::string code;
+    if (!codeDir.empty()) {
+        code = util::genReadFileContents(codeDir + '/' + relPath);
+    }
+
     if (!code.empty()) {
         updateRealCodeInjected(true);
         return code;
-- 
2.43.0


From e52935ee346cc809be08ecfd01c79b4e36186abb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 089/124] fix: Ignored failure to read the list of input files

---
 lib/src/gen/GenProgramOptions.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 8037e77..f707bac 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -490,11 +490,17 @@ GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
         }
 
         std::ifstream stream(fileName);
-        if (!stream) {
-            break;
+        std::string contents;
+        std::string line;
+        bool opened = stream.is_open();
+        while (std::getline(stream, line)) {
+            contents += line + '\n';
         }
 
-        std::string contents(std::istreambuf_iterator<char>(stream), (std::istreambuf_iterator<char>()));
+        if ((!opened) || (stream.bad())) {
+            std::cerr << "ERROR: Failed to read the list of input files from \"" << fileName << "\"!" << std::endl;
+            return GenStringsList();
+        }
 
         result = util::genStrSplitByAnyChar(contents, "\r\n");
 
-- 
2.43.0


From b02112f21d96fec07fba4c7e4e423c13662e3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 090/124] fix: Abort instead of reporting failure on unhandled
 exception

---
 app/commsdsl2c/src/main.cpp          | 2 --
 app/commsdsl2comms/src/main.cpp      | 2 --
 app/commsdsl2emscripten/src/main.cpp | 2 --
 app/commsdsl2latex/src/main.cpp      | 2 --
 app/commsdsl2swig/src/main.cpp       | 2 --
 app/commsdsl2test/src/main.cpp       | 2 --
 app/commsdsl2tools_qt/src/main.cpp   | 2 --
 7 files changed, 14 deletions(-)

diff --git a/app/commsdsl2c/src/main.cpp b/app/commsdsl2c/src/main.cpp
index 963694e..8a69a3b 100644
--- a/app/commsdsl2c/src/main.cpp
+++ b/app/commsdsl2c/src/main.cpp
@@ -17,7 +17,6 @@
 #include "CGenerator.h"
 #include "CProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2comms/src/main.cpp b/app/commsdsl2comms/src/main.cpp
index 3841f85..914b827 100644
--- a/app/commsdsl2comms/src/main.cpp
+++ b/app/commsdsl2comms/src/main.cpp
@@ -19,7 +19,6 @@
 
 #include <stdexcept>
 #include <iostream>
-#include <cassert>
 
 int main(int argc, const char* argv[])
 {
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2emscripten/src/main.cpp b/app/commsdsl2emscripten/src/main.cpp
index 9a2f748..1853a6e 100644
--- a/app/commsdsl2emscripten/src/main.cpp
+++ b/app/commsdsl2emscripten/src/main.cpp
@@ -17,7 +17,6 @@
 #include "EmscriptenGenerator.h"
 #include "EmscriptenProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2latex/src/main.cpp b/app/commsdsl2latex/src/main.cpp
index 09ed000..530455a 100644
--- a/app/commsdsl2latex/src/main.cpp
+++ b/app/commsdsl2latex/src/main.cpp
@@ -17,7 +17,6 @@
 #include "LatexGenerator.h"
 #include "LatexProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2swig/src/main.cpp b/app/commsdsl2swig/src/main.cpp
index a2fa978..6f25a53 100644
--- a/app/commsdsl2swig/src/main.cpp
+++ b/app/commsdsl2swig/src/main.cpp
@@ -17,7 +17,6 @@
 #include "SwigGenerator.h"
 #include "SwigProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2test/src/main.cpp b/app/commsdsl2test/src/main.cpp
index 1d0647c..05718b1 100644
--- a/app/commsdsl2test/src/main.cpp
+++ b/app/commsdsl2test/src/main.cpp
@@ -17,7 +17,6 @@
 #include "TestGenerator.h"
 #include "TestProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
diff --git a/app/commsdsl2tools_qt/src/main.cpp b/app/commsdsl2tools_qt/src/main.cpp
index 2f35824..47d30d4 100644
--- a/app/commsdsl2tools_qt/src/main.cpp
+++ b/app/commsdsl2tools_qt/src/main.cpp
@@ -17,7 +17,6 @@
 #include "ToolsQtGenerator.h"
 #include "ToolsQtProgramOptions.h"
 
-#include <cassert>
 #include <iostream>
 #include <stdexcept>
 
@@ -32,7 +31,6 @@ int main(int argc, const char* argv[])
     }
     catch (const std::exception& e) {
         std::cerr << "Unhandled exception: " << e.what() << std::endl;
-        assert(false);
     }
 
     return -1;
-- 
2.43.0


From c6ebbdfc7e02841c633aae4c80f0acff8a75fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 091/124] fix: Silently accepted non-numeric versions in the
 command line

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  2 ++
 lib/include/commsdsl/gen/util.h              |  2 +-
 lib/src/gen/GenGenerator.cpp                 | 10 +++++++
 lib/src/gen/GenProgramOptions.cpp            | 20 +++++++++++++
 lib/src/gen/util.cpp                         | 31 ++++++++++++++++----
 5 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 4e9e00f..7bf2125 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -65,7 +65,9 @@ public:
     bool genHasNamespaceOverride() const;
     const std::string& genGetNamespace() const;
     unsigned genGetMinRemoteVersion() const;
+    bool genHasValidMinRemoteVersion() const;
     bool genHasForcedSchemaVersion() const;
+    bool genHasValidForcedSchemaVersion() const;
     unsigned genGetForcedSchemaVersion() const;
     bool genCodeInjectComments() const;
     const std::string& genGetCodeVersion() const;
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a1415aa..746bfa0 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -36,7 +36,7 @@ std::string genStrToName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
 std::string genStrInsertIndent(const std::string& str);
-unsigned genStrToUnsigned(const std::string& str);
+unsigned genStrToUnsigned(const std::string& str, bool* ok = nullptr);
 bool genStrStartsWith(const std::string& str, const std::string& prefix);
 bool genStrEndsWith(const std::string& str, const std::string& suffix);
 std::string genStrToUpper(const std::string& str);
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index c66b2da..099354b 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1387,6 +1387,16 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
         genSetNamespaceOverride(options.genGetNamespace());
     }
 
+    if (!options.genHasValidMinRemoteVersion()) {
+        logger.genError("Minimal remote version is expected to be an unsigned number");
+        return OptsProcessResult_Failure;
+    }
+
+    if (!options.genHasValidForcedSchemaVersion()) {
+        logger.genError("Forced schema version is expected to be an unsigned number");
+        return OptsProcessResult_Failure;
+    }
+
     if (options.genHasForcedSchemaVersion()) {
         genForceSchemaVersion(options.genGetForcedSchemaVersion());
     }
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index f707bac..79280b2 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -553,6 +553,26 @@ bool GenProgramOptions::genHasForcedSchemaVersion() const
     return genIsOptUsed(GenForceVerStr);
 }
 
+bool GenProgramOptions::genHasValidMinRemoteVersion() const
+{
+    bool result = true;
+    if (genIsOptUsed(GenMinRemoteVerStr)) {
+        util::genStrToUnsigned(genValue(GenMinRemoteVerStr), &result);
+    }
+
+    return result;
+}
+
+bool GenProgramOptions::genHasValidForcedSchemaVersion() const
+{
+    bool result = true;
+    if (genHasForcedSchemaVersion()) {
+        util::genStrToUnsigned(genValue(GenForceVerStr), &result);
+    }
+
+    return result;
+}
+
 unsigned GenProgramOptions::genGetForcedSchemaVersion() const
 {
     return commsdsl::gen::util::genStrToUnsigned(genValue(GenForceVerStr));
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0eb947a..ac87ff3 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -272,14 +272,33 @@ std::string genStrInsertIndent(const std::string& str)
     return strings::genIndentStr() + genStrReplace(str, "\n", "\n" + strings::genIndentStr());
 }
 
-unsigned genStrToUnsigned(const std::string& str)
+unsigned genStrToUnsigned(const std::string& str, bool* ok)
 {
-    try {
-        return static_cast<unsigned>(std::stoul(str));
-    }
-    catch (...) {
-        return 0U;
+    unsigned result = 0U;
+    bool success = false;
+    do {
+        if (str.empty() || (str.find_first_not_of("0123456789") != std::string::npos)) {
+            break;
+        }
+
+        try {
+            auto value = std::stoul(str);
+            if (std::numeric_limits<unsigned>::max() < value) {
+                break;
+            }
+
+            result = static_cast<unsigned>(value);
+            success = true;
+        }
+        catch (...) {
+        }
+    } while (false);
+
+    if (ok != nullptr) {
+        *ok = success;
     }
+
+    return result;
 }
 
 bool genStrStartsWith(const std::string& str, const std::string& prefix)
-- 
2.43.0


From 53ad188216c8929d6890acf845a944e547243f83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 092/124] fix: Support documented "--option=value" form of the
 command line options

---
 lib/src/gen/GenProgramOptions.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 79280b2..c78185c 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -139,13 +139,31 @@ public:
 
             if (nextStr[1] == '-') {
                 auto longOpt = nextStr.substr(2);
-                processOptFunc(longOpt, m_longOpts);
+                auto valPos = longOpt.find('=');
+                processOptFunc(longOpt.substr(0, valPos), m_longOpts);
+                if (valPos == std::string::npos) {
+                    continue;
+                }
+
+                if (opt == nullptr) {
+                    if (m_longOpts.find(longOpt.substr(0, valPos)) != m_longOpts.end()) {
+                        genReportUnexpectedValue(nextStr);
+                    }
+                    continue;
+                }
+
+                opt->m_value = longOpt.substr(valPos + 1);
+                opt = nullptr;
                 continue;
             }
 
             auto shortOpt = nextStr.substr(1);
             processOptFunc(shortOpt, m_shortOpts);
         }
+
+        if (opt != nullptr) {
+            genReportMissingValue(argv[argc - 1]);
+        }
     }
 
     bool genIsOptUsed(const std::string& optStr) const
@@ -295,6 +313,16 @@ private:
         std::cerr << "WARNING: Unknown option \"" << opt << "\"!" << std::endl;
     }
 
+    void genReportUnexpectedValue(const std::string& opt)
+    {
+        std::cerr << "WARNING: Unexpected value in option \"" << opt << "\"!" << std::endl;
+    }
+
+    void genReportMissingValue(const std::string& opt)
+    {
+        std::cerr << "WARNING: Missing value of option \"" << opt << "\"!" << std::endl;
+    }
+
     static const OptInfo* genFindOptInfo(const std::string& optStr, const OptInfosMap& map)
     {
         auto iter = map.find(optStr);
-- 
2.43.0


From c02ad2f59e28c33c0edb74f2b59874901d25e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 093/124] fix: Ignored forced schema versions which do not fit
 into int

---
 lib/src/gen/GenGenerator.cpp | 3 ++-
 lib/src/gen/GenSchema.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 099354b..ae3ed8d 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -42,6 +42,7 @@
 #include "commsdsl/parse/ParseProtocol.h"
 #include "commsdsl/version.h"
 
+#include <cstdint>
 #include <cassert>
 #include <algorithm>
 #include <filesystem>
@@ -673,7 +674,7 @@ private:
     const GenInterface* m_forcedInterface = nullptr;
     std::map<std::string, std::string> m_namespaceOverrides;
     std::string m_topNamespace;
-    int m_forcedSchemaVersion = -1;
+    std::intmax_t m_forcedSchemaVersion = -1;
     unsigned m_minRemoteVersion = 0U;
     std::string m_codeVersion;
     std::string m_outputDir;
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index c1c7815..1344fef 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -23,6 +23,7 @@
 
 #include "commsdsl/parse/ParseProtocol.h"
 
+#include <cstdint>
 #include <algorithm>
 #include <cassert>
 #include <filesystem>
@@ -510,7 +511,7 @@ private:
     ParseSchema m_parseObj;
     GenElem* m_parent = nullptr;
     GenNamespacesList m_namespaces;
-    int m_forcedSchemaVersion = -1;
+    std::intmax_t m_forcedSchemaVersion = -1;
     GenFieldsAccessList m_messageIdFields;
     std::string m_mainNamespace;
     std::string m_origNamespace;
-- 
2.43.0


From 2a87a3492464515a63525d90874a10b6ad43e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:21 +0000
Subject: [PATCH 094/124] fix: Search for the suitable interface in the wrong
 schema

---
 lib/src/gen/GenNamespace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 49c37a6..b5397b5 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -19,6 +19,7 @@
 
 #include "commsdsl/gen/GenField.h"
 #include "commsdsl/gen/GenGenerator.h"
+#include "commsdsl/gen/GenSchema.h"
 #include "commsdsl/gen/GenInterface.h"
 #include "commsdsl/gen/strings.h"
 
@@ -539,7 +540,7 @@ private:
             return static_cast<const GenNamespace*>(parent)->genFindSuitableInterface();
         }
 
-        auto allNamespaces = m_generator.genGetAllNamespaces();
+        auto allNamespaces = GenGenerator::genSchemaOf(*m_holder).genGetAllNamespaces();
         auto iter =
             std::find_if(
                 allNamespaces.begin(), allNamespaces.end(),
-- 
2.43.0


From 78e86e145005a1860cfda53331fa237ba59d80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:55 +0000
Subject: [PATCH 095/124] fix: C interface of special values of version
 dependent fields

---
 app/commsdsl2c/src/CFloatField.cpp | 8 ++++++++
 app/commsdsl2c/src/CIntField.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/app/commsdsl2c/src/CFloatField.cpp b/app/commsdsl2c/src/CFloatField.cpp
index b4684d5..33ced81 100644
--- a/app/commsdsl2c/src/CFloatField.cpp
+++ b/app/commsdsl2c/src/CFloatField.cpp
@@ -147,6 +147,10 @@ std::string CFloatField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -190,6 +194,10 @@ std::string CFloatField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
diff --git a/app/commsdsl2c/src/CIntField.cpp b/app/commsdsl2c/src/CIntField.cpp
index 1f7efa2..99d01a2 100644
--- a/app/commsdsl2c/src/CIntField.cpp
+++ b/app/commsdsl2c/src/CIntField.cpp
@@ -163,6 +163,10 @@ std::string CIntField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -206,6 +210,10 @@ std::string CIntField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
-- 
2.43.0


From 7625e821797e6f0b4accd8760fb4af370847c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:55 +0000
Subject: [PATCH 096/124] fix: Invalid C enum generated for the namespace
 without any messages

---
 app/commsdsl2c/src/CMsgId.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/commsdsl2c/src/CMsgId.cpp b/app/commsdsl2c/src/CMsgId.cpp
index 2fc3fae..662a050 100644
--- a/app/commsdsl2c/src/CMsgId.cpp
+++ b/app/commsdsl2c/src/CMsgId.cpp
@@ -127,6 +127,12 @@ std::string CMsgId::cIdsInternal() const
     for (auto* m : allMessages) {
         ids.push_back(prefix + '_' + comms::genFullNameFor(*m) + " = " + util::genNumToString(m->genParseObj().parseId()));
     }
+
+    if (ids.empty()) {
+        // Enum without values is not valid in C
+        ids.push_back(prefix + "_ValuesLimit");
+    }
+
     return util::genStrListToString(ids, ",\n", "");
 }
 
-- 
2.43.0


From 7c1e55d546eca26b1217cfa7fede0c6e7af94612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:06 +0000
Subject: [PATCH 097/124] fix: C message handler referencing messages of
 another interface

---
 app/commsdsl2c/src/CMsgHandler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2c/src/CMsgHandler.cpp b/app/commsdsl2c/src/CMsgHandler.cpp
index 7cbd177..2d3eaca 100644
--- a/app/commsdsl2c/src/CMsgHandler.cpp
+++ b/app/commsdsl2c/src/CMsgHandler.cpp
@@ -442,9 +442,15 @@ CMsgHandler::GenMessagesAccessList CMsgHandler::cMessagesListInternal() const
     allMessages.erase(
         std::remove_if(
             allMessages.begin(), allMessages.end(),
-            [](auto* m)
+            [this](auto* m)
             {
-                return !m->genIsReferenced();
+                if (!m->genIsReferenced()) {
+                    return true;
+                }
+
+                // The message type is defined in terms of the interface of its own namespace
+                auto* msgNs = CNamespace::cCast(m->genParentNamespace());
+                return (msgNs == nullptr) || (msgNs->cInterface() != m_parent.cInterface());
             }),
         allMessages.end());
 
-- 
2.43.0


From 3c04f4eb4114b4dd8b9141bcde0e8c73eeb2357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:09 +0000
Subject: [PATCH 098/124] fix: C interface: tentative mode functions of
 optional fields declared and defined under the same names

---
 app/commsdsl2c/src/CField.cpp         | 4 ++--
 app/commsdsl2c/src/COptionalField.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..2a4bbad 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -912,12 +912,12 @@ std::string CField::cSourceOptionalCodeInternal() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$#_isTenative(const #^#NAME#$#* field)\n"
+        "bool #^#NAME#$#_isTentative(const #^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$#_setTenative(#^#NAME#$#* field)\n"
+        "void #^#NAME#$#_setTentative(#^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
diff --git a/app/commsdsl2c/src/COptionalField.cpp b/app/commsdsl2c/src/COptionalField.cpp
index 9d5951f..0c853e4 100644
--- a/app/commsdsl2c/src/COptionalField.cpp
+++ b/app/commsdsl2c/src/COptionalField.cpp
@@ -159,12 +159,12 @@ std::string COptionalField::cSourceCodeImpl() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$##^#SUFFIX#$#_isTenative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
+        "bool #^#NAME#$##^#SUFFIX#$#_isTentative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$##^#SUFFIX#$#_setTenative(#^#NAME#$##^#SUFFIX#$#* field)\n"
+        "void #^#NAME#$##^#SUFFIX#$#_setTentative(#^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
-- 
2.43.0


From 6deab37fa2cd374688e685f41c76a84fa3536442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:09 +0000
Subject: [PATCH 099/124] fix: C interface: transport field access functions
 declared and defined under the same names

---
 app/commsdsl2c/src/CInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CInterface.cpp b/app/commsdsl2c/src/CInterface.cpp
index b5562c2..d7bd501 100644
--- a/app/commsdsl2c/src/CInterface.cpp
+++ b/app/commsdsl2c/src/CInterface.cpp
@@ -472,7 +472,7 @@ std::string CInterface::cSourceCodeInternal() const
     util::GenStringsList fieldsAcc;
     for (auto* f : m_cFields) {
         static const std::string AccTempl =
-            "#^#HANDLE#$#* #^#NAME#$#_field_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
+            "#^#HANDLE#$#* #^#NAME#$#_transportField_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
             "{\n"
             "    return to#^#CONV_SUFFIX#$#(&(fromInterfaceHandle(msg)->transportField_#^#FIELD_ACC#$#()));\n"
             "}\n"
-- 
2.43.0


From 3fb370521a50e1c7371ce4d886754c81cbe100f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:09 +0000
Subject: [PATCH 100/124] fix: C interface: insertion of list elements into
 vectors without fixed capacity and in the middle

---
 app/commsdsl2c/src/CListField.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2c/src/CListField.cpp b/app/commsdsl2c/src/CListField.cpp
index 847954a..39a55fc 100644
--- a/app/commsdsl2c/src/CListField.cpp
+++ b/app/commsdsl2c/src/CListField.cpp
@@ -168,10 +168,16 @@ std::string CListField::cSourceCodeImpl() const
         "{\n"
         "    auto& val = from#^#CONV_SUFFIX#$#(field)->value();\n"
         "    auto nextSize = std::max(idx + 1U, val.size() + 1U);\n"
-        "    if (val.capacity() <= nextSize) {\n"
+        "    if (val.max_size() < nextSize) {\n"
         "        return nullptr;\n"
         "    }\n"
-        "    val.resize(nextSize);\n"
+        "    if (idx < val.size()) {\n"
+        "        using ElementType = typename std::decay<decltype(val)>::type::value_type;\n"
+        "        val.insert(val.begin() + idx, ElementType());\n"
+        "    }\n"
+        "    else {\n"
+        "        val.resize(nextSize);\n"
+        "    }\n"
         "    return to#^#ELEM_CONV_SUFFIX#$#(&val[idx]);\n"
         "}\n"
         "\n"
-- 
2.43.0


From 0ba43c096f58da0e57350cd3302a4827e2c7e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:09 +0000
Subject: [PATCH 101/124] fix: C interface: handler of the global interface
 lists messages of all the namespaces

---
 app/commsdsl2c/src/CMsgHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CMsgHandler.cpp b/app/commsdsl2c/src/CMsgHandler.cpp
index 2d3eaca..3c396db 100644
--- a/app/commsdsl2c/src/CMsgHandler.cpp
+++ b/app/commsdsl2c/src/CMsgHandler.cpp
@@ -435,7 +435,8 @@ std::string CMsgHandler::cCommsSourceFuncsInternal() const
 CMsgHandler::GenMessagesAccessList CMsgHandler::cMessagesListInternal() const
 {
     auto allMessages = m_parent.genGetAllMessagesIdSorted();
-    if (allMessages.empty() && m_parent.genName().empty()) {
+    if (m_parent.genName().empty()) {
+        // The interface of the global namespace can be shared by the messages of all the others
         allMessages = m_cGenerator.genCurrentSchema().genGetAllMessagesIdSorted();
     }
 
-- 
2.43.0


From d285d7cf55bf65fc84a1474d3c3ab7f8d893423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:56 +0000
Subject: [PATCH 102/124] fix: LaTeX: backslashes in texts not escaped and
 following characters misplaced

---
 app/commsdsl2latex/src/LatexGenerator.cpp | 30 +++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/app/commsdsl2latex/src/LatexGenerator.cpp b/app/commsdsl2latex/src/LatexGenerator.cpp
index 877ad27..b92a537 100644
--- a/app/commsdsl2latex/src/LatexGenerator.cpp
+++ b/app/commsdsl2latex/src/LatexGenerator.cpp
@@ -203,24 +203,28 @@ std::string LatexGenerator::latexLabelId(const GenElem& elem)
 
 std::string LatexGenerator::latexEscString(const std::string& str)
 {
-    auto strTmp = util::genStrReplace(str, "\\", "\\textbackslash{}");
+    static const std::string EscChars("{}#%$_&");
     std::string result;
-    std::size_t pos = 0U;
-    while (pos < str.size()) {
-        auto nextPos = strTmp.find_first_of("{}#%$_&", pos);
-        if (str.size() <= nextPos) {
-            result.append(str, pos, std::string::npos);
-            break;
+    for (auto ch : str) {
+        if (ch == '\\') {
+            result.append("\\textbackslash{}");
+            continue;
+        }
+
+        if ((ch == '^') || (ch == '~')) {
+            result.push_back('\\');
+            result.push_back(ch);
+            result.append("{}");
+            continue;
+        }
+
+        if (EscChars.find(ch) != std::string::npos) {
+            result.push_back('\\');
         }
 
-        result.append(str, pos, nextPos - pos);
-        result.append("\\");
-        result.push_back(str[nextPos]);
-        pos = nextPos + 1U;
+        result.push_back(ch);
     }
 
-    result = util::genStrReplace(result, "^", "\\^{}");
-    result = util::genStrReplace(result, "~", "\\~{}");
     return result;
 }
 
-- 
2.43.0


From 986122a544955a247181f0d49c0b235a2de87364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 103/124] fix: LaTeX: nested namespaces missing from the
 document

---
 app/commsdsl2latex/src/LatexNamespace.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexNamespace.cpp b/app/commsdsl2latex/src/LatexNamespace.cpp
index 5c87e9c..34ce7b0 100644
--- a/app/commsdsl2latex/src/LatexNamespace.cpp
+++ b/app/commsdsl2latex/src/LatexNamespace.cpp
@@ -255,10 +255,17 @@ bool LatexNamespace::latexHasDocElements() const
                     });
         };
 
+    auto& subNamespaces = genNamespaces();
     return
         hasInput(m_latexFields) ||
         hasInput(m_latexMessages) ||
-        hasInput(m_latexFrames);
+        hasInput(m_latexFrames) ||
+        std::any_of(
+            subNamespaces.begin(), subNamespaces.end(),
+            [](auto& nsPtr)
+            {
+                return LatexNamespace::latexCast(*nsPtr).latexHasDocElements();
+            });
 }
 
 std::string LatexNamespace::latexInputs() const
@@ -279,6 +286,13 @@ std::string LatexNamespace::latexInputs() const
     addInputFor(m_latexMessages);
     addInputFor(m_latexFrames);
 
+    for (auto& nsPtr : genNamespaces()) {
+        auto path = LatexNamespace::latexCast(*nsPtr).latexRelFilePath();
+        if (!path.empty()) {
+            inputs.push_back("\\input{" + path + "}");
+        }
+    }
+
     if (inputs.empty()) {
         return strings::genEmptyString();
     }
-- 
2.43.0


From acf9a064c7844109e65b4e9c64c36e0600a360c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 104/124] fix: LaTeX: descriptions of enum values, special
 values and bits not escaped

---
 app/commsdsl2latex/src/LatexEnumField.cpp  | 3 ++-
 app/commsdsl2latex/src/LatexFloatField.cpp | 2 +-
 app/commsdsl2latex/src/LatexIntField.cpp   | 2 +-
 app/commsdsl2latex/src/LatexSetField.cpp   | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2latex/src/LatexEnumField.cpp b/app/commsdsl2latex/src/LatexEnumField.cpp
index 6a0c48b..4bdd749 100644
--- a/app/commsdsl2latex/src/LatexEnumField.cpp
+++ b/app/commsdsl2latex/src/LatexEnumField.cpp
@@ -74,7 +74,8 @@ std::string LatexEnumField::latexExtraDetailsImpl() const
 
         auto l =
             LatexGenerator::latexIntegralToStr(iter->second.m_value, unsignedType, hexWidth) + " & " +
-            LatexGenerator::latexEscDisplayName(iter->second.m_displayName, iter->first) + " & " + iter->second.m_description;
+            LatexGenerator::latexEscDisplayName(iter->second.m_displayName, iter->first) + " & " +
+            LatexGenerator::latexEscString(iter->second.m_description);
         lines.push_back(std::move(l));
     }
 
diff --git a/app/commsdsl2latex/src/LatexFloatField.cpp b/app/commsdsl2latex/src/LatexFloatField.cpp
index b96af09..58aa21a 100644
--- a/app/commsdsl2latex/src/LatexFloatField.cpp
+++ b/app/commsdsl2latex/src/LatexFloatField.cpp
@@ -162,7 +162,7 @@ std::string LatexFloatField::latexExtraDetailsImpl() const
         auto& elem = infos.back();
         elem.m_value = s.second.m_value;
         elem.m_name = LatexGenerator::latexEscDisplayName(s.second.m_displayName, s.first);
-        elem.m_description = s.second.m_description;
+        elem.m_description = LatexGenerator::latexEscString(s.second.m_description);
     }
 
     if (infos.empty()) {
diff --git a/app/commsdsl2latex/src/LatexIntField.cpp b/app/commsdsl2latex/src/LatexIntField.cpp
index 2c4624d..26027e0 100644
--- a/app/commsdsl2latex/src/LatexIntField.cpp
+++ b/app/commsdsl2latex/src/LatexIntField.cpp
@@ -133,7 +133,7 @@ std::string LatexIntField::latexExtraDetailsImpl() const
         auto& elem = infos.back();
         elem.m_value = s.second.m_value;
         elem.m_name = LatexGenerator::latexEscDisplayName(s.second.m_displayName, s.first);
-        elem.m_description = s.second.m_description;
+        elem.m_description = LatexGenerator::latexEscString(s.second.m_description);
     }
 
     if (infos.empty()) {
diff --git a/app/commsdsl2latex/src/LatexSetField.cpp b/app/commsdsl2latex/src/LatexSetField.cpp
index fecec9f..5209248 100644
--- a/app/commsdsl2latex/src/LatexSetField.cpp
+++ b/app/commsdsl2latex/src/LatexSetField.cpp
@@ -90,7 +90,7 @@ std::string LatexSetField::latexExtraDetailsImpl() const
         auto& info = iter->second;
         auto l = std::to_string(b.first) + " & " + idxToMaskStr(b.first) + " & " +
             LatexGenerator::latexEscDisplayName(info.m_displayName, b.second) + " & " +
-            info.m_description;
+            LatexGenerator::latexEscString(info.m_description);
 
         auto addVersionInfo =
             [&info, &l]()
-- 
2.43.0


From 256b9b506e6a75adac1fad9d1b758f24395aa046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 105/124] fix: LaTeX: misspelled units

---
 app/commsdsl2latex/src/LatexField.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2latex/src/LatexField.cpp b/app/commsdsl2latex/src/LatexField.cpp
index bec5022..417891f 100644
--- a/app/commsdsl2latex/src/LatexField.cpp
+++ b/app/commsdsl2latex/src/LatexField.cpp
@@ -817,7 +817,7 @@ std::string LatexField::latexUnitsInfo(commsdsl::parse::ParseUnits value)
 
         // Distance
         /* Nanometers */ "Nanometers",
-        /* Micrometers */ "Micromiters",
+        /* Micrometers */ "Micrometers",
         /* Millimeters */ "Millimeters",
         /* Centimeters */ "Centimeters",
         /* Meters */ "Meters",
@@ -854,13 +854,13 @@ std::string LatexField::latexUnitsInfo(commsdsl::parse::ParseUnits value)
         /* Microvolts */ "Micro Volts",
         /* Millivolts */ "Milli Volts",
         /* Volts */ "Volts",
-        /* Kilovolts */ "Killo Volts",
+        /* Kilovolts */ "Kilo Volts",
 
         // Memory Size
         /* Bytes */ "Bytes",
         /* Kilobytes */ "Kilobytes",
         /* Megabytes */ "Megabytes",
-        /* Gigabytes */ "Kigabytes",
+        /* Gigabytes */ "Gigabytes",
         /* Terabytes */ "Terabytes",
     };
     static const std::size_t MapSize = std::extent_v<decltype(Map)>;
-- 
2.43.0


From 5f76aec68f8e1a62e41daf6a8c85b706a178b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 106/124] fix: LaTeX: valid values of strings not escaped

---
 app/commsdsl2latex/src/LatexStringField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexStringField.cpp b/app/commsdsl2latex/src/LatexStringField.cpp
index 98925a2..e89d31b 100644
--- a/app/commsdsl2latex/src/LatexStringField.cpp
+++ b/app/commsdsl2latex/src/LatexStringField.cpp
@@ -52,7 +52,7 @@ std::string LatexStringField::latexInfoDetailsImpl() const
 
         util::GenStringsList values;
         for (auto& v : validValues) {
-            values.push_back("\"" + v.m_value + "\"");
+            values.push_back("\"" + LatexGenerator::latexEscString(v.m_value) + "\"");
         }
 
         list.push_back("\\textbf{Valid Values} & " + util::genStrListToString(values, ", ", ""));
-- 
2.43.0


From bb47544e07ae007c6cdc4d58530932520310e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 107/124] fix: LaTeX: display name of the schema not escaped in
 the title

---
 app/commsdsl2latex/src/Latex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/Latex.cpp b/app/commsdsl2latex/src/Latex.cpp
index bbce5d6..d4dc776 100644
--- a/app/commsdsl2latex/src/Latex.cpp
+++ b/app/commsdsl2latex/src/Latex.cpp
@@ -302,7 +302,7 @@ std::string Latex::latexTitleInternal() const
     ;
 
     auto& protSchema = m_latexGenerator.genProtocolSchema();
-    auto title = protSchema.genParseObj().parseDisplayName();
+    auto title = LatexGenerator::latexEscString(protSchema.genParseObj().parseDisplayName());
     if (title.empty()) {
         title = "Protocol \"" + LatexGenerator::latexEscString(protSchema.genMainNamespace()) + "\"";
     }
-- 
2.43.0


From 85d5d2596b42d00ff74b28e45d5ccb380279100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 108/124] fix: LaTeX: label of the schema defined again by its
 global namespace

---
 app/commsdsl2latex/src/LatexNamespace.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexNamespace.cpp b/app/commsdsl2latex/src/LatexNamespace.cpp
index 34ce7b0..fb1630d 100644
--- a/app/commsdsl2latex/src/LatexNamespace.cpp
+++ b/app/commsdsl2latex/src/LatexNamespace.cpp
@@ -214,7 +214,14 @@ bool LatexNamespace::genWriteImpl() const
         auto title = latexTitle();
         if (!title.empty()) {
             repl["SECTION"] = latexSection(title);
-            repl["LABEL"] = "\\label{" + LatexGenerator::latexLabelId(*this) + '}';
+            auto label = LatexGenerator::latexLabelId(*this);
+            auto* parent = genGetParent();
+            assert(parent != nullptr);
+            auto& schema = LatexSchema::latexCast(LatexGenerator::genSchemaOf(*this));
+            bool schemaLabel = (!schema.latexTitle().empty()) && (label == LatexGenerator::latexLabelId(*parent));
+            if (!schemaLabel) {
+                repl["LABEL"] = "\\label{" + label + '}';
+            }
 
             if (genParseObj().parseValid()) {
                 repl["DESCRIPTION"] = util::genStrMakeMultiline(LatexGenerator::latexEscString(genParseObj().parseDescription()));
-- 
2.43.0


From 5fa98794f043d32d21ec879edd032ee9a20619f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 109/124] fix: LaTeX: description of an optional field lost
 when its field has none

---
 app/commsdsl2latex/src/LatexField.cpp         | 11 ++++++++++-
 app/commsdsl2latex/src/LatexOptionalField.cpp |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2latex/src/LatexField.cpp b/app/commsdsl2latex/src/LatexField.cpp
index 417891f..20313b2 100644
--- a/app/commsdsl2latex/src/LatexField.cpp
+++ b/app/commsdsl2latex/src/LatexField.cpp
@@ -709,7 +709,16 @@ std::string LatexField::latexDocImpl() const
 
 std::string LatexField::latexDescriptionImpl() const
 {
-    return util::genStrMakeMultiline(LatexGenerator::latexEscString(m_genField.genParseObj().parseDescription()));
+    auto* description = &m_genField.genParseObj().parseDescription();
+    auto* parent = m_genField.genGetParent();
+    if ((description->empty()) && (parent != nullptr) && (parent->genElemType() == GenElem::GenType_Field)) {
+        auto* optionalField = dynamic_cast<const LatexOptionalField*>(parent);
+        if ((optionalField != nullptr) && (optionalField->latexIsPassThroughToMember())) {
+            description = &optionalField->genParseObj().parseDescription();
+        }
+    }
+
+    return util::genStrMakeMultiline(LatexGenerator::latexEscString(*description));
 }
 
 std::string LatexField::latexRefLabelIdImpl() const
diff --git a/app/commsdsl2latex/src/LatexOptionalField.cpp b/app/commsdsl2latex/src/LatexOptionalField.cpp
index d780ec1..fdf2a0c 100644
--- a/app/commsdsl2latex/src/LatexOptionalField.cpp
+++ b/app/commsdsl2latex/src/LatexOptionalField.cpp
@@ -65,7 +65,7 @@ std::string LatexOptionalField::latexDocImpl() const
 std::string LatexOptionalField::latexDescriptionImpl() const
 {
     if (latexIsPassThroughToMember()) {
-        return LatexGenerator::latexEscString(genMemberField()->genParseObj().parseDescription());
+        return LatexField::latexCast(genMemberField())->latexDescription();
     }
 
     return LatexBase::latexDescriptionImpl();
-- 
2.43.0


From 66517c3b6ac91b91956275dbaf7535f4ff3c5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 110/124] fix: LaTeX: description of a reference lost when
 named as the referenced field

---
 app/commsdsl2latex/src/LatexRefField.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2latex/src/LatexRefField.cpp b/app/commsdsl2latex/src/LatexRefField.cpp
index d445fc3..444fd9f 100644
--- a/app/commsdsl2latex/src/LatexRefField.cpp
+++ b/app/commsdsl2latex/src/LatexRefField.cpp
@@ -107,6 +107,11 @@ bool LatexRefField::latexIsEmptyAlias() const
     } while (false);
 
     assert(m_latexField != nullptr);
+    auto& description = genParseObj().parseDescription();
+    if ((!description.empty()) && (description != m_latexField->latexGenField().genParseObj().parseDescription())) {
+        return false;
+    }
+
     auto& displayName = genParseObj().parseDisplayName();
     auto& refDisplayName = m_latexField->latexGenField().genParseObj().parseDisplayName();
 
-- 
2.43.0


From ce56fd69c6473b272f806e405a1f387035b6e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:32 +0000
Subject: [PATCH 111/124] fix: LaTeX: small special values and ranges of
 floating point fields shown as zero

---
 app/commsdsl2latex/src/LatexFloatField.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexFloatField.cpp b/app/commsdsl2latex/src/LatexFloatField.cpp
index 58aa21a..0876d25 100644
--- a/app/commsdsl2latex/src/LatexFloatField.cpp
+++ b/app/commsdsl2latex/src/LatexFloatField.cpp
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdlib>
 #include <iomanip>
 #include <limits>
 #include <sstream>
@@ -75,7 +76,14 @@ std::string latexFloatValToString(double val, const commsdsl::parse::ParseFloatF
 
     auto displayDecimals = parseObj.parseDisplayDecimals();
     if (displayDecimals == 0) {
-        return std::to_string(val);
+        // As short as possible without losing information
+        auto result = std::to_string(val);
+        for (auto precision = 6; (precision <= std::numeric_limits<double>::max_digits10) && (std::strtod(result.c_str(), nullptr) != val); ++precision) {
+            std::stringstream stream;
+            stream << std::setprecision(precision) << val;
+            result = stream.str();
+        }
+        return result;
     }
 
     std::stringstream stream;
-- 
2.43.0


From 53b0e71c3991c6fe9313556ecf85016b2c5f9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 112/124] fix: SWIG message handler of the global interface
 lists messages of all the namespaces

---
 app/commsdsl2swig/src/SwigMsgHandler.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigMsgHandler.cpp b/app/commsdsl2swig/src/SwigMsgHandler.cpp
index 8b9343b..25454d6 100644
--- a/app/commsdsl2swig/src/SwigMsgHandler.cpp
+++ b/app/commsdsl2swig/src/SwigMsgHandler.cpp
@@ -253,10 +253,26 @@ std::string SwigMsgHandler::swigClassDeclInternal() const
 SwigMsgHandler::GenMessagesAccessList SwigMsgHandler::swigMessagesListInternal() const
 {
     auto allMessages = m_parent.genGetAllMessagesIdSorted();
-    if (allMessages.empty() && m_parent.genName().empty()) {
+    if (m_parent.genName().empty()) {
+        // The interface of the global namespace can be shared by the messages of all the others
         allMessages = m_swigGenerator.genCurrentSchema().genGetAllMessagesIdSorted();
     }
 
+    allMessages.erase(
+        std::remove_if(
+            allMessages.begin(), allMessages.end(),
+            [this](auto* m)
+            {
+                if (!m->genIsReferenced()) {
+                    return true;
+                }
+
+                // The message class is defined in terms of the interface of its own namespace
+                auto* msgNs = SwigNamespace::swigCast(m->genParentNamespace());
+                return (msgNs == nullptr) || (msgNs->swigInterface() != m_parent.swigInterface());
+            }),
+        allMessages.end());
+
     return allMessages;
 }
 
-- 
2.43.0


From da05b8cb5e4963dcc5b4fd6ebc3ce16422354936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 113/124] fix: SWIG input messages lists referencing messages
 not declared yet or of another interface

---
 app/commsdsl2swig/src/Swig.cpp              |  8 ++++++++
 app/commsdsl2swig/src/SwigInputMessages.cpp | 15 +++++++++++++++
 app/commsdsl2swig/src/SwigNamespace.cpp     |  4 ----
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2swig/src/Swig.cpp b/app/commsdsl2swig/src/Swig.cpp
index 7242df2..5182cef 100644
--- a/app/commsdsl2swig/src/Swig.cpp
+++ b/app/commsdsl2swig/src/Swig.cpp
@@ -131,6 +131,14 @@ std::string Swig::swigCodeBlockInternal()
         }
     }
 
+    for (auto* nsPtr : allNamespaces) {
+        auto* input = SwigNamespace::swigCast(nsPtr)->swigInputMessages();
+        if (input != nullptr) {
+            // Lists messages from the inner namespaces as well
+            input->swigAddCode(codeElems);
+        }
+    }
+
     auto allFrames = m_swigGenerator.genGetAllFramesFromAllSchemas();
     for (auto* fPtr : allFrames) {
         auto* frame = SwigFrame::swigCast(fPtr);
diff --git a/app/commsdsl2swig/src/SwigInputMessages.cpp b/app/commsdsl2swig/src/SwigInputMessages.cpp
index 84f9b84..f9a5455 100644
--- a/app/commsdsl2swig/src/SwigInputMessages.cpp
+++ b/app/commsdsl2swig/src/SwigInputMessages.cpp
@@ -82,6 +82,21 @@ SwigInputMessages::GenMessagesAccessList SwigInputMessages::swigMessagesListInte
         allMessages = m_swigGenerator.genCurrentSchema().genGetAllMessagesIdSorted();
     }
 
+    allMessages.erase(
+        std::remove_if(
+            allMessages.begin(), allMessages.end(),
+            [this](auto* m)
+            {
+                if (!m->genIsReferenced()) {
+                    return true;
+                }
+
+                // The message class is defined in terms of the interface of its own namespace
+                auto* msgNs = SwigNamespace::swigCast(m->genParentNamespace());
+                return (msgNs == nullptr) || (msgNs->swigInterface() != m_parent.swigInterface());
+            }),
+        allMessages.end());
+
     return allMessages;
 }
 
diff --git a/app/commsdsl2swig/src/SwigNamespace.cpp b/app/commsdsl2swig/src/SwigNamespace.cpp
index c269bd7..0ce24de 100644
--- a/app/commsdsl2swig/src/SwigNamespace.cpp
+++ b/app/commsdsl2swig/src/SwigNamespace.cpp
@@ -101,10 +101,6 @@ void SwigNamespace::swigAddCode(GenStringsList& list) const
         SwigMessage::swigCast(m.get())->swigAddCode(list);
     }
 
-    if (swigHasInput()) {
-        m_input.swigAddCode(list);
-    }
-
     // for (auto& f : genFrames()) {
     //     SwigFrame::swigCast(f.get())->swigAddCode(list);
     // }
-- 
2.43.0


From d5557d8dda212ee1c1cc7cc61ccd97f18f9eea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 114/124] fix: SWIG frames do not complete the write of the
 fields that require update

---
 app/commsdsl2swig/src/SwigFrame.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 6698efd..e52e046 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -307,15 +307,25 @@ std::string SwigFrame::swigFrameCodeInternal() const
         "        outBuf.reserve(m_frame.length(msg));\n"
         "        auto writeIter = std::back_inserter(outBuf);\n"
         "        auto es = m_frame.write(msg, writeIter, outBuf.max_size());\n"
+        "        if (es == comms::ErrorStatus::UpdateRequired) {\n"
+        "            auto updateIter = outBuf.begin();\n"
+        "            es = m_frame.update(updateIter, outBuf.size());\n"
+        "        }\n\n"
         "        static_cast<void>(es);\n"
         "        assert(es == comms::ErrorStatus::Success);\n"
         "        return outBuf;\n"
         "    }\n\n"
         "    #^#ERR_STATUS#$# appendMessage(const #^#INTERFACE#$#& msg, #^#DATA_BUF#$#& buf)\n"
         "    {\n"
-        "        buf.reserve(buf.size() + m_frame.length(msg));\n"
+        "        auto prevSize = buf.size();\n"
+        "        buf.reserve(prevSize + m_frame.length(msg));\n"
         "        auto writeIter = std::back_inserter(buf);\n"
-        "        return m_frame.write(msg, writeIter, buf.max_size() - buf.size());\n"
+        "        auto es = m_frame.write(msg, writeIter, buf.max_size() - prevSize);\n"
+        "        if (es == comms::ErrorStatus::UpdateRequired) {\n"
+        "            auto updateIter = std::next(buf.begin(), static_cast<std::ptrdiff_t>(prevSize));\n"
+        "            es = m_frame.update(updateIter, buf.size() - prevSize);\n"
+        "        }\n\n"
+        "        return es;\n"
         "    }\n\n"
         "    #^#CUSTOM#$#\n\n"
         "private:\n"
-- 
2.43.0


From a3b00f60d35eed1c8c8737b2da54ac6a93d2d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 115/124] fix: Emscripten frames do not complete the write of
 the fields that require update

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index ff65ff3..fa8e2bc 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -482,9 +482,15 @@ std::string EmscriptenFrame::emscriptenSourceCodeInternal() const
         "}\n\n"
         "comms::ErrorStatus #^#CLASS_NAME#$#::writeMessage(const #^#INTERFACE#$#& msg, #^#DATA_BUF#$#& buf)\n"
         "{\n"
-        "    buf.reserve(buf.size() + m_frame.length(msg));\n"
+        "    auto prevSize = buf.size();\n"
+        "    buf.reserve(prevSize + m_frame.length(msg));\n"
         "    auto writeIter = std::back_inserter(buf);\n"
-        "    return m_frame.write(msg, writeIter, buf.max_size() - buf.size());\n"
+        "    auto es = m_frame.write(msg, writeIter, buf.max_size() - prevSize);\n"
+        "    if (es == comms::ErrorStatus::UpdateRequired) {\n"
+        "        auto updateIter = std::next(buf.begin(), static_cast<std::ptrdiff_t>(prevSize));\n"
+        "        es = m_frame.update(updateIter, buf.size() - prevSize);\n"
+        "    }\n\n"
+        "    return es;\n"
         "}\n";
 
     util::GenStringsList allFieldsAcc;
-- 
2.43.0


From 81d94c36edbb63d9719bc53c79cf6e476e95630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 116/124] fix: SWIG transport field access functions hiding the
 field types

---
 app/commsdsl2swig/src/SwigInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/commsdsl2swig/src/SwigInterface.cpp b/app/commsdsl2swig/src/SwigInterface.cpp
index 2ab2451..7d51b7d 100644
--- a/app/commsdsl2swig/src/SwigInterface.cpp
+++ b/app/commsdsl2swig/src/SwigInterface.cpp
@@ -310,6 +310,7 @@ std::string SwigInterface::swigFieldsAccCodeInternal() const
     auto& gen = SwigGenerator::swigCast(genGenerator());
     for (auto* f : m_swigFields) {
         static const std::string Templ = {
+            "using TransportField_#^#ACC_NAME#$# = #^#CLASS_NAME#$#;\n"
             "#^#CLASS_NAME#$#& transportField_#^#ACC_NAME#$#()\n"
             "{\n"
             "    return static_cast<#^#CLASS_NAME#$#&>(Base::transportField_#^#ACC_NAME#$#());\n"
-- 
2.43.0


From 41a59455b98e78cda9183b364005cbdfe2e29fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 117/124] fix: emscripten enum value name functions crash on
 values without name

---
 app/commsdsl2emscripten/src/EmscriptenEnumField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
index 30b9a98..b130dce 100644
--- a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
@@ -118,11 +118,12 @@ std::string EmscriptenEnumField::emscriptenHeaderExtraPublicFuncsImpl() const
     static const std::string Templ =
         "static std::string valueNameOf(ValueType val)\n"
         "{\n"
-        "    return std::string(Base::valueNameOf(val));\n"
+        "    auto* name = Base::valueNameOf(val);\n"
+        "    return std::string((name != nullptr) ? name : \"\");\n"
         "}\n\n"
         "std::string valueName() const\n"
         "{\n"
-        "    return std::string(Base::valueName());\n"
+        "    return valueNameOf(getValue());\n"
         "}\n\n"
         "static typename std::underlying_type<ValueType>::type asConstant(ValueType val)\n"
         "{\n"
-- 
2.43.0


From 4054da6529d703eb900cc6373fd75a8342f0cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 118/124] fix: emscripten message ID enums left without
 bindings when they do not define MsgId

---
 .../src/EmscriptenEnumField.cpp               | 31 ++++++++++++++-----
 .../src/EmscriptenEnumField.h                 |  1 +
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
index b130dce..64ef596 100644
--- a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
@@ -181,13 +181,9 @@ std::string EmscriptenEnumField::emscriptenSourceBindExtraImpl() const
         return strings::genEmptyString();
     }
 
-    if (genParseObj().parseSemanticType() == commsdsl::parse::ParseField::ParseSemanticType::MessageId) {
-        auto* parentNs = EmscriptenNamespace::emscriptenCast(genParentNamespace());
-        auto allMsgIdFields = parentNs->genFindMessageIdFields();
-        if (allMsgIdFields.size() == 1U) {
-            // The bindings for MsgId are created separately
-            return strings::genEmptyString();
-        }
+    if (emscriptenIsMsgIdInternal()) {
+        // The bindings for MsgId are created separately
+        return strings::genEmptyString();
     }
 
     static const std::string Templ =
@@ -203,6 +199,27 @@ std::string EmscriptenEnumField::emscriptenSourceBindExtraImpl() const
     return util::genProcessTemplate(Templ, repl);
 }
 
+bool EmscriptenEnumField::emscriptenIsMsgIdInternal() const
+{
+    if (genParseObj().parseSemanticType() != commsdsl::parse::ParseField::ParseSemanticType::MessageId) {
+        return false;
+    }
+
+    // The MsgId is defined by the closest namespace that has interfaces
+    auto* ns = genParentNamespace();
+    while (ns->genInterfaces().empty()) {
+        auto* parent = ns->genGetParent();
+        if ((parent == nullptr) || (parent->genElemType() != commsdsl::gen::GenElem::GenType_Namespace)) {
+            return false;
+        }
+
+        ns = static_cast<const commsdsl::gen::GenNamespace*>(parent);
+    }
+
+    auto allMsgIdFields = ns->genFindMessageIdFields();
+    return (allMsgIdFields.size() == 1U) && (allMsgIdFields.front() == this);
+}
+
 bool EmscriptenEnumField::emscriptenCanProvideValuesInternal() const
 {
     auto type = genEnumFieldParseObj().parseType();
diff --git a/app/commsdsl2emscripten/src/EmscriptenEnumField.h b/app/commsdsl2emscripten/src/EmscriptenEnumField.h
index c567997..62e2dc5 100644
--- a/app/commsdsl2emscripten/src/EmscriptenEnumField.h
+++ b/app/commsdsl2emscripten/src/EmscriptenEnumField.h
@@ -56,6 +56,7 @@ protected:
 
 private:
     bool emscriptenCanProvideValuesInternal() const;
+    bool emscriptenIsMsgIdInternal() const;
 };
 
 } // namespace commsdsl2emscripten
-- 
2.43.0


From c4653f7402e28fae6d781a7bf4f8036673f516f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 119/124] fix: emscripten values of variable length enums wider
 than 32 bits

---
 app/commsdsl2emscripten/src/EmscriptenEnumField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
index 64ef596..1a2208f 100644
--- a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
@@ -236,12 +236,12 @@ bool EmscriptenEnumField::emscriptenCanProvideValuesInternal() const
     }
 
     if ((type == commsdsl::parse::ParseIntField::ParseType::Intvar) &&
-        (genParseObj().parseMinLength() > sizeof(std::int32_t))) {
+        (genParseObj().parseMaxLength() > sizeof(std::int32_t))) {
         return false;
     }
 
     if ((type == commsdsl::parse::ParseIntField::ParseType::Uintvar) &&
-        (genParseObj().parseMinLength() > sizeof(std::int32_t))) {
+        (genParseObj().parseMaxLength() > sizeof(std::int32_t))) {
         return false;
     }
 
-- 
2.43.0


From d7f1ab7c4fbf41eadf112d897d2e3d9d82695157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 120/124] fix: emscripten interface write function is not bound

---
 app/commsdsl2emscripten/src/EmscriptenInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenInterface.cpp b/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
index 2051a7c..b5bcd88 100644
--- a/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
@@ -332,6 +332,7 @@ std::string EmscriptenInterface::emscriptenSourceCodeInternal() const
         "        #^#FIELDS#$#\n"
         "        .function(\"readDataBuf\", &#^#CLASS_NAME#$#::readDataBuf)\n"
         "        .function(\"readJsArray\", &#^#CLASS_NAME#$#::readJsArray)\n"
+        "        .function(\"writeDataBuf\", &#^#CLASS_NAME#$#::writeDataBuf)\n"
         "        .function(\"getId\", &#^#CLASS_NAME#$#::getId)\n"
         "        .function(\"refresh\", &#^#CLASS_NAME#$#::refresh)\n"
         "        .function(\"length\", &#^#CLASS_NAME#$#::length)\n"
-- 
2.43.0


From 929eb9e25d85322ab8dd6b860eeae98395487489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 121/124] fix: emscripten special values access of the integral
 fields is not bound

---
 app/commsdsl2emscripten/src/EmscriptenIntField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
index 10daa4d..9bcacea 100644
--- a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
@@ -54,7 +54,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
         "{\n"
         "    return Base::hasSpecials();\n"
         "}\n\n"
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
@@ -70,7 +70,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
 std::string EmscriptenIntField::emscriptenSourceBindFuncsImpl() const
 {
     static const std::string Templ =
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
-- 
2.43.0


From c7e4473636d83fc20ff025d58ae19a1183b472a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:04 +0000
Subject: [PATCH 122/124] fix: emscripten message handler lists messages
 defined with the handled interface

---
 .../src/EmscriptenInputMessages.cpp           | 12 +++++
 .../src/EmscriptenMsgHandler.cpp              | 52 +++++++++++--------
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp b/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp
index 987d7e3..d672a29 100644
--- a/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenInputMessages.cpp
@@ -99,6 +99,12 @@ bool EmscriptenInputMessages::emscriptenWriteHeaderInternal() const
             continue;
         }
 
+        // The message class is defined in terms of the interface of its own namespace
+        auto* msgNs = EmscriptenNamespace::emscriptenCast(m->genParentNamespace());
+        if ((msgNs == nullptr) || (msgNs->emscriptenInterface() != m_parent.emscriptenInterface())) {
+            continue;
+        }
+
         auto* castMsg = EmscriptenMessage::emscriptenCast(m);
         includes.push_back(castMsg->emscriptenRelHeader());
         msgs.push_back(m_emscriptenGenerator.emscriptenClassName(*castMsg));
@@ -159,6 +165,12 @@ bool EmscriptenInputMessages::emscriptenWriteHeaderFwdInternal() const
             continue;
         }
 
+        // The message class is defined in terms of the interface of its own namespace
+        auto* msgNs = EmscriptenNamespace::emscriptenCast(m->genParentNamespace());
+        if ((msgNs == nullptr) || (msgNs->emscriptenInterface() != m_parent.emscriptenInterface())) {
+            continue;
+        }
+
         auto* castMsg = EmscriptenMessage::emscriptenCast(m);
         msgs.push_back("class " + m_emscriptenGenerator.emscriptenClassName(*castMsg) + ";");
     }
diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
index 32105a6..93bdfe6 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
@@ -26,6 +26,7 @@
 #include "commsdsl/gen/strings.h"
 #include "commsdsl/gen/util.h"
 
+#include <algorithm>
 #include <cassert>
 #include <fstream>
 
@@ -40,7 +41,6 @@ namespace
 {
 
 const std::string EmscriptenClassName("MsgHandler");
-const std::string EmscriptenWrapperClassName(EmscriptenClassName + "Wrapper");
 
 } // namespace
 
@@ -92,6 +92,7 @@ bool EmscriptenMsgHandler::emscriptenWriteHeaderInternal() const
         "#^#GENERATED#$#\n\n"
         "#pragma once\n\n"
         "#^#INCLUDES#$#\n"
+        "#^#FWD#$#\n"
         "class #^#CLASS_NAME#$#\n"
         "{\n"
         "public:\n"
@@ -106,10 +107,16 @@ bool EmscriptenMsgHandler::emscriptenWriteHeaderInternal() const
     auto* iFace = m_parent.emscriptenInterface();;
     assert(iFace != nullptr);
 
+    util::GenStringsList fwd;
+    for (auto* m : emscriptenMessagesListInternal()) {
+        fwd.push_back("class " + m_emscriptenGenerator.emscriptenClassName(*m) + ";");
+    }
+
     util::GenReplacementMap repl = {
         {"GENERATED", EmscriptenGenerator::emscriptenFileGeneratedComment()},
         {"CLASS_NAME", emscriptenClassName()},
         {"INCLUDES", emscriptenHeaderIncludesInternal()},
+        {"FWD", util::genStrListToString(fwd, "\n", "\n")},
         {"COMMS_INTERFACE", comms::genScopeFor(*iFace, m_emscriptenGenerator)},
         {"INTERFACE", m_emscriptenGenerator.emscriptenClassName(*iFace)},
         {"FUNCS", emscriptenHeaderHandleFuncsInternal()},
@@ -154,12 +161,8 @@ bool EmscriptenMsgHandler::emscriptenWriteSrcInternal() const
         ;
 
     util::GenStringsList includes;
-    m_parent.emscriptenAddInputMessageIncludes(includes);
-    if (!m_parent.emscriptenHasInput()) {
-        auto allNs = m_emscriptenGenerator.genGetAllNamespaces();
-        for (auto* ns : allNs) {
-            EmscriptenNamespace::emscriptenCast(ns)->emscriptenAddInputMessageIncludes(includes);
-        }
+    for (auto* m : emscriptenMessagesListInternal()) {
+        includes.push_back(EmscriptenMessage::emscriptenCast(m)->emscriptenRelHeader());
     }
 
     comms::genPrepareIncludeStatement(includes);
@@ -189,22 +192,13 @@ std::string EmscriptenMsgHandler::emscriptenHeaderIncludesInternal() const
 {
     auto* iFace = m_parent.emscriptenInterface();
     assert(iFace != nullptr);
-    auto* parentNs = iFace->genParentNamespace();
-    assert(parentNs != nullptr);
 
     util::GenStringsList includes = {
         iFace->emscriptenRelHeader()
     };
 
-    auto* emscriptenNs = EmscriptenNamespace::emscriptenCast(parentNs);
-    emscriptenNs->emscriptenAddCommsMessageIncludes(includes);
-    emscriptenNs->emscriptenAddInputMessageFwdIncludes(includes);
-
-    if (!emscriptenNs->emscriptenHasInput()) {
-        auto allNs = m_emscriptenGenerator.genGetAllNamespaces();
-        for (auto* ns : allNs) {
-            EmscriptenNamespace::emscriptenCast(ns)->emscriptenAddInputMessageFwdIncludes(includes);
-        }
+    for (auto* m : emscriptenMessagesListInternal()) {
+        includes.push_back(comms::genRelHeaderPathFor(*m, m_emscriptenGenerator));
     }
 
     EmscriptenProtocolOptions::emscriptenAddInclude(m_emscriptenGenerator, includes);
@@ -298,7 +292,7 @@ std::string EmscriptenMsgHandler::emscriptenSourceWrapperClassInternal() const
         "};\n";
 
     util::GenReplacementMap repl = {
-        {"WRAPPER", m_emscriptenGenerator.emscriptenScopeNameForRoot(EmscriptenWrapperClassName)},
+        {"WRAPPER", emscriptenClassName() + "Wrapper"},
         {"CLASS_NAME", emscriptenClassName()},
         {"FUNCS", emscriptenSourceWrapperFuncsInternal()},
     };
@@ -355,7 +349,7 @@ std::string EmscriptenMsgHandler::emscriptenSourceBindInternal() const
 
     util::GenReplacementMap repl = {
         {"CLASS_NAME", emscriptenClassName()},
-        {"WRAPPER", m_emscriptenGenerator.emscriptenScopeNameForRoot(EmscriptenWrapperClassName)},
+        {"WRAPPER", emscriptenClassName() + "Wrapper"},
         {"FUNCS", emscriptenSourceBindFuncsInternal()}
     };
 
@@ -397,10 +391,26 @@ std::string EmscriptenMsgHandler::emscriptenSourceBindFuncsInternal() const
 EmscriptenMsgHandler::GenMessagesAccessList EmscriptenMsgHandler::emscriptenMessagesListInternal() const
 {
     auto allMessages = m_parent.genGetAllMessagesIdSorted();
-    if (allMessages.empty() && m_parent.genName().empty()) {
+    if (m_parent.genName().empty()) {
+        // The interface of the global namespace can be shared by the messages of all the others
         allMessages = m_emscriptenGenerator.genCurrentSchema().genGetAllMessagesIdSorted();
     }
 
+    allMessages.erase(
+        std::remove_if(
+            allMessages.begin(), allMessages.end(),
+            [this](auto* m)
+            {
+                if (!m->genIsReferenced()) {
+                    return true;
+                }
+
+                // The message class is defined in terms of the interface of its own namespace
+                auto* msgNs = EmscriptenNamespace::emscriptenCast(m->genParentNamespace());
+                return (msgNs == nullptr) || (msgNs->emscriptenInterface() != m_parent.emscriptenInterface());
+            }),
+        allMessages.end());
+
     return allMessages;
 }
 
-- 
2.43.0


From d691944277bb4b14f20f46923cb938aa1dbbedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:39 +0000
Subject: [PATCH 123/124] fix: property text split by comments, processing
 instructions or CDATA sections is taken over completely

---
 lib/src/parse/ParseXmlWrap.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index abc904e..0abe213 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -110,15 +110,17 @@ std::string ParseXmlWrap::parseGetText(::xmlNodePtr node)
         child = child->next;
     }
 
+    // The text can be split by comments, processing instructions, and CDATA sections
+    std::string result;
     child = node->children;
     while (child != nullptr) {
-        if (child->type == XML_TEXT_NODE) {
+        if ((child->type == XML_TEXT_NODE) || (child->type == XML_CDATA_SECTION_NODE)) {
             ParseStringPtr valuePtr(::xmlNodeGetContent(child));
-            return std::string(reinterpret_cast<const char*>(valuePtr.get()));
+            result += reinterpret_cast<const char*>(valuePtr.get());
         }
         child = child->next;
     }
-    return std::string();
+    return result;
 }
 
 bool ParseXmlWrap::parseNodeValue(
-- 
2.43.0


From 4ec15f9d7a7a3fbfad3581d17c89f9a915c000fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:44 +0000
Subject: [PATCH 124/124] fix: refresh of an integral field no longer replaces
 a value that is valid in the current version only

---
 app/commsdsl2comms/src/CommsIntField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index cd8cde5..54c7048 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -248,7 +248,7 @@ std::string CommsIntField::commsDefRefreshFuncBodyImpl() const
 
     static const std::string Templ =
         "bool updated = Base::refresh();\n"
-        "if (Base::valid()) {\n"
+        "if (this->valid()) {\n"
         "    return updated;\n"
         "};\n"
         "Base::setValue(#^#VALID_VALUE#$#);\n"
-- 
2.43.0

