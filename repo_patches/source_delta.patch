From 33f6a54a41319b47d78e18e9d862064fdda7cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:26 +0000
Subject: [PATCH 01/38] fix: keep every byte of string and bytes keys of 128
 bytes and more

The key encoders strip the length prefix protowire adds, but only its first byte: keys of
128 bytes or more kept the rest of the prefix and could not be read back by id.
---
 pkg/protoutils/kindencoder/kindencoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..d02c526 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,9 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +246,5 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	return append([]byte{}, value.Bytes()...)
 }
-- 
2.43.0


From c663ea9a2c1b839d55e8198d86d6334956ddbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:32 +0000
Subject: [PATCH 02/38] fix: report store errors instead of panicking

Creating an object twice, listing without results and using an unregistered object are
errors the caller can handle; convertStoreError panicked on each of them.
---
 runtime/runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..3d491aa 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,9 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		return err
 	}
 }
-- 
2.43.0


From a218b0c24535d73bb73c598a99a971d14af8738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 03/38] fix: iterate the whole key range

NewKeyIterator only visits the versions of one key, so a range iteration yielded its start
key at most.
---
 runtime/kv/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..9266314 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -78,14 +78,14 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
 	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
+	iter := txn.NewIterator(badger.IteratorOptions{
 		PrefetchSize:   1,
 		PrefetchValues: false,
 		Reverse:        false,
 		AllVersions:    false,
 		InternalAccess: false,
 	})
-	iter.Rewind()
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
-- 
2.43.0


From 886e25c0e17571c7d1d9ff4febec08ab4e4b3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 04/38] fix: report whether the deleted key existed

---
 runtime/kv/badger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 9266314..f574dfa 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -64,6 +64,9 @@ func (b *Badger) Has(k []byte) bool {
 }
 
 func (b *Badger) Delete(k []byte) (exists bool) {
+	if !b.Has(k) {
+		return false
+	}
 	txn := b.db.NewTransaction(true)
 	err := txn.Delete(k)
 	if err != nil {
-- 
2.43.0


From 446acc3db41a7f78387968aeae92a3c96b4d42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 05/38] fix: find map fields of nested messages

---
 pkg/protoutils/desc/desc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e9107a2..fe36324 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -63,7 +63,7 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 	inspected[desc.FullName()] = struct{}{}
 
 	for _, insp := range toInspect {
-		if _, ok := inspected[desc.FullName()]; ok {
+		if _, ok := inspected[insp.FullName()]; ok {
 			continue
 		}
 		if hasMap(inspected, insp) {
-- 
2.43.0


From d3c4f09e877b324301cb5ceb142acdf02fc1be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:21 +0000
Subject: [PATCH 06/38] fix: let HasKind inspect recursive messages

---
 pkg/protoutils/desc/desc.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index fe36324..e32212d 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -16,6 +16,16 @@ func HasKinds(desc protoreflect.MessageDescriptor, kinds ...protoreflect.Kind) b
 
 // HasKind recursively checks if the given MessageDescriptor contains the provided field kind.
 func HasKind(desc protoreflect.MessageDescriptor, fKind protoreflect.Kind) bool {
+	return hasKind(map[protoreflect.FullName]struct{}{}, desc, fKind)
+}
+
+func hasKind(inspected map[protoreflect.FullName]struct{}, desc protoreflect.MessageDescriptor, fKind protoreflect.Kind) bool {
+	// messages can contain themselves through the values of their maps
+	if _, ok := inspected[desc.FullName()]; ok {
+		return false
+	}
+	inspected[desc.FullName()] = struct{}{}
+
 	for i := 0; i < desc.Fields().Len(); i++ {
 		fd := desc.Fields().Get(i)
 		switch {
@@ -26,7 +36,7 @@ func HasKind(desc protoreflect.MessageDescriptor, fKind protoreflect.Kind) bool
 				return true
 			}
 			if valueKind == protoreflect.MessageKind {
-				if HasKind(fd.MapValue().Message(), fKind) {
+				if hasKind(inspected, fd.MapValue().Message(), fKind) {
 					return true
 				}
 			}
-- 
2.43.0


From 3473c35f716bb5a0cfa795e7917cba0b3c635a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 07/38] fix: refuse lists as primary keys and duplicate
 secondary keys

---
 runtime/orm/schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..2ffc78f 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -117,6 +117,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 		if primaryKey == nil {
 			return nil, fmt.Errorf("%w: invalid primary key field %s in object %s", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
 		}
+		if primaryKey.Cardinality() == protoreflect.Repeated {
+			return nil, fmt.Errorf("%w: primary key field %s of object %s is a list", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
+		}
 		primaryKeyEncoder, err := kindencoder.NewKindEncoder(primaryKey.Kind())
 		if err != nil {
 			return nil, fmt.Errorf("%w: %s has invalid primary key field: %s", ErrBadDefinition, meta.Name(o), err)
@@ -139,6 +142,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 	schema.secondaryKeys = make([]*Indexer, len(options.SecondaryKeys))
 	schema.secondaryKeysByField = make(map[string]*Indexer, len(options.SecondaryKeys))
 	for i, skName := range options.SecondaryKeys {
+		if _, exists := schema.secondaryKeysByField[skName]; exists {
+			return nil, fmt.Errorf("%w: duplicate secondary key %s in object %s", ErrBadDefinition, skName, meta.Name(o))
+		}
 		sk, err := NewIndexer(o, skName)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 1b4cb04ce44915e2aac637cf93eb6d0a0aa59264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 08/38] fix: read the access control of the handled message,
 not of a namesake

---
 core/rbac/rbac_applier.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..4127612 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -132,30 +132,23 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 
 	// runtime provides us the files in order so every file
 	// we add we are sure it already has the required dependencies.
-	var fds []protoreflect.FileDescriptor // NOTE(fdymylja): we cannot use protoregistry.Files.Range because the order is non deterministic
 	for _, rawFD := range std.ProtoDependencies {
 		fd, err := protodesc.NewFile(rawFD, fileRegistry)
 		if err != nil {
 			return nil, fmt.Errorf("unable to create file descriptor %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
-		fds = append(fds, fd)
 		err = fileRegistry.RegisterFile(fd)
 		if err != nil {
 			return nil, fmt.Errorf("unable to register file %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
 	}
 
-	var md protoreflect.MessageDescriptor
-	for _, fd := range fds {
-		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
-			md = got
-			break
-		}
-	}
-
+	// the message is looked up by its full name, as more than one of the files
+	// might contain a message with the same short name.
+	desc, err := fileRegistry.FindDescriptorByName(protoreflect.FullName(std.ProtobufFullname))
+	md, ok := desc.(protoreflect.MessageDescriptor)
 	// critical error, there's some data corruption uh
-	if md == nil {
+	if err != nil || !ok {
 		panic(fmt.Errorf("protobuf file %s was not found in the provided runtime registry", std.ProtobufFullname))
 	}
 
-- 
2.43.0


From 244c083232af38234f1a39be8d3edb550f0d9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 09/38] fix: let a module need a transition it was already
 granted

---
 core/rbac/rbac_applier.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 4127612..e2297a8 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -107,6 +107,11 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		case meta.APIType_StateObject:
 			return nil, fmt.Errorf("not supported apitype.stateobject") // TODO(fdymylja): when issue arises
 		case meta.APIType_StateTransition:
+			// a module might need what it already handles, or need
+			// the same transition more than once
+			if contains(moduleRole.GetResourcesForVerb(runtimev1alpha1.Verb_Deliver), res.Resource.Name()) {
+				continue
+			}
 			err := moduleRole.ExtendRaw(runtimev1alpha1.Verb_Deliver, res.Resource)
 			if err != nil {
 				return nil, err
@@ -184,3 +189,12 @@ func extendRoleForStateObject(role *v1alpha1.Role, def *meta.APIDefinition) (err
 	}
 	return nil
 }
+
+func contains(resources []string, resource string) bool {
+	for _, r := range resources {
+		if r == resource {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 49ea2806bd8ac592d293a822f061e697a6159539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 10/38] fix: deliver transactions atomically

A transaction which fails half way no longer leaves the effects of the messages
(or post authentication handlers) which ran before the failure.
---
 runtime/abci.go       | 25 +++++++++------
 runtime/builder.go    |  5 +--
 runtime/kv/journal.go | 74 +++++++++++++++++++++++++++++++++++++++++++
 runtime/runtime.go    | 23 ++++++++++++++
 4 files changed, 115 insertions(+), 12 deletions(-)
 create mode 100644 runtime/kv/journal.go

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..307c9ae 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,21 +116,26 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO cache the store
-	err = a.rt.runTxPostAuthenticationChain(tx)
+	// the changes of the post authentication handlers are kept only if all of them succeed
+	err = a.rt.atomically(func() error {
+		return a.rt.runTxPostAuthenticationChain(tx)
+	})
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write the cache
-	// TODO cache again
-	// start delivering transitions
-	for _, transition := range tx.StateTransitions() {
-		err = a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
-		if err != nil {
-			return errors.ToABCIResponse(0, 0, err)
+	// start delivering transitions, their changes are kept only if all of them succeed
+	err = a.rt.atomically(func() error {
+		for _, transition := range tx.StateTransitions() {
+			err := a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
+			if err != nil {
+				return err
+			}
 		}
+		return nil
+	})
+	if err != nil {
+		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write cache
 	// success!
 	return types.ResponseDeliverTx{}
 }
diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..e685664 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -284,10 +284,11 @@ func (b *Builder) installDependencies() error {
 }
 
 func (b *Builder) initStore() error {
-	okv := kv.NewBadger()
+	okv := kv.NewJournal(kv.NewBadger())
 	obj := objects.NewStore(okv)
-	idxKv := kv.NewBadger()
+	idxKv := kv.NewJournal(kv.NewBadger())
 	idx := indexes.NewStore(idxKv)
+	b.rt.journals = []*kv.Journal{okv, idxKv}
 
 	b.store = orm.NewStore(obj, idx)
 
diff --git a/runtime/kv/journal.go b/runtime/kv/journal.go
new file mode 100644
index 0000000..150db99
--- /dev/null
+++ b/runtime/kv/journal.go
@@ -0,0 +1,74 @@
+package kv
+
+// NewJournal wraps the provided KV into one whose writes can be undone.
+func NewJournal(kv KV) *Journal {
+	return &Journal{KV: kv}
+}
+
+// Journal is a KV which remembers the values replaced since Begin was called,
+// so that they can be restored. Writes are immediately visible to readers.
+type Journal struct {
+	KV
+	recording bool
+	replaced  []replacedValue
+}
+
+type replacedValue struct {
+	key, value []byte
+	existed    bool
+}
+
+// Begin starts to remember the replaced values
+func (j *Journal) Begin() {
+	j.recording = true
+	j.replaced = nil
+}
+
+// Commit keeps the writes done since Begin
+func (j *Journal) Commit() {
+	j.recording = false
+	j.replaced = nil
+}
+
+// Rollback undoes the writes done since Begin
+func (j *Journal) Rollback() {
+	for i := len(j.replaced) - 1; i >= 0; i-- {
+		r := j.replaced[i]
+		if r.existed {
+			j.KV.Set(r.key, r.value)
+		} else {
+			j.KV.Delete(r.key)
+		}
+	}
+	j.Commit()
+}
+
+func (j *Journal) Set(k, v []byte) {
+	undo := j.current(k)
+	j.KV.Set(k, v)
+	j.remember(undo)
+}
+
+func (j *Journal) Delete(k []byte) (exists bool) {
+	undo := j.current(k)
+	exists = j.KV.Delete(k)
+	j.remember(undo)
+	return exists
+}
+
+func (j *Journal) current(k []byte) (r replacedValue) {
+	if !j.recording {
+		return r
+	}
+	value, existed := j.KV.Get(k)
+	r.key = append(r.key, k...)
+	r.value = append(r.value, value...)
+	r.existed = existed
+	return r
+}
+
+func (j *Journal) remember(r replacedValue) {
+	if j.recording {
+		j.replaced = append(j.replaced, r)
+	}
+}
diff --git a/runtime/runtime.go b/runtime/runtime.go
index 3d491aa..31c8ec2 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -8,6 +8,7 @@ import (
 	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"k8s.io/klog/v2"
 
@@ -42,6 +43,8 @@ type Runtime struct {
 
 	router *Router
 	store  orm.Store
+	// journals of the key values used by store
+	journals []*kv.Journal
 
 	services *ServiceGroup
 }
@@ -261,6 +264,26 @@ func (r *Runtime) runTxPostAuthenticationChain(tx authentication.Tx) error {
 	return nil
 }
 
+// atomically runs f, if it does not succeed the state changes it made are undone.
+func (r *Runtime) atomically(f func() error) (err error) {
+	for _, j := range r.journals {
+		j.Begin()
+	}
+	succeeded := false
+	defer func() {
+		for _, j := range r.journals {
+			if succeeded {
+				j.Commit()
+			} else {
+				j.Rollback()
+			}
+		}
+	}()
+	err = f()
+	succeeded = err == nil
+	return err
+}
+
 func (r *Runtime) authorized(attributes authorization.Attributes) error {
 	if !r.authorizerEnabled {
 		return nil
-- 
2.43.0


From 23263645f9570ac84ba08585642faec2ff6f8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 11/38] fix: run the admission handlers of delivered messages

A block might contain transactions that never went through CheckTx.
---
 runtime/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index 307c9ae..632b657 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -126,7 +126,7 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	// start delivering transitions, their changes are kept only if all of them succeed
 	err = a.rt.atomically(func() error {
 		for _, transition := range tx.StateTransitions() {
-			err := a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
+			err := a.rt.Deliver(tx.Users(), transition)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 976e59ae7c97dfe208926ed1d1b030ac09064a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 12/38] fix: accept the first transaction of an account without
 public key

The address is the hash of the signer's public key, which is what authenticates it.
The public key is stored by the setPubKeys handler once the signature is verified.
---
 x/authn/extensions.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/authn/extensions.go b/x/authn/extensions.go
index f30c28f..c10ae5e 100644
--- a/x/authn/extensions.go
+++ b/x/authn/extensions.go
@@ -211,9 +211,6 @@ func (a sigVerifier) Validate(aTx authentication.Tx) error {
 		if err != nil {
 			return err
 		}
-		if acc.PubKey == nil {
-			return fmt.Errorf("pub key not set on account %s", signer.Address)
-		}
 		// check sequence
 		if acc.Sequence != signer.Sequence {
 			return fmt.Errorf("invalid sequence %d expected %d", signer.Sequence, acc.Sequence)
-- 
2.43.0


From b4deee99fdf2f34bc85cd77d66254fd7c91eb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:36 +0000
Subject: [PATCH 13/38] fix: answer transactions whose processing panics

---
 runtime/abci.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index 632b657..76340fb 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
 	abcictrl "github.com/fdymylja/tmos/core/abci/v1alpha1"
 	meta "github.com/fdymylja/tmos/core/meta"
@@ -42,7 +44,13 @@ func (a ABCIApplication) Query(query types.RequestQuery) types.ResponseQuery {
 	return a.query.Handle(query)
 }
 
-func (a ABCIApplication) CheckTx(tmTx types.RequestCheckTx) types.ResponseCheckTx {
+func (a ABCIApplication) CheckTx(tmTx types.RequestCheckTx) (resp types.ResponseCheckTx) {
+	// a transaction must not be able to halt the node
+	defer func() {
+		if r := recover(); r != nil {
+			resp = types.ResponseCheckTx(errors.ToABCIResponse(0, 0, fmt.Errorf("panic whilst checking tx: %v", r)))
+		}
+	}()
 	// decode tx
 	tx, err := a.rt.txDecoder.DecodeTx(tmTx.Tx)
 	if err != nil {
@@ -105,7 +113,13 @@ func (a ABCIApplication) BeginBlock(tmBlock types.RequestBeginBlock) types.Respo
 	}
 }
 
-func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDeliverTx {
+func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) (resp types.ResponseDeliverTx) {
+	// a transaction must not be able to halt the node
+	defer func() {
+		if r := recover(); r != nil {
+			resp = errors.ToABCIResponse(0, 0, fmt.Errorf("panic whilst delivering tx: %v", r))
+		}
+	}()
 	// decode tx
 	tx, err := a.rt.txDecoder.DecodeTx(tmTx.Tx)
 	if err != nil {
-- 
2.43.0


From 2fb31f9efd4e59e0f5559bb179030b14147b7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:41 +0000
Subject: [PATCH 14/38] fix: refuse public keys of the wrong size

---
 x/authn/crypto/crypto.go              | 6 ++++++
 x/authn/crypto/secp256k1/secp256k1.go | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/x/authn/crypto/crypto.go b/x/authn/crypto/crypto.go
index 51716cc..ce6c00c 100644
--- a/x/authn/crypto/crypto.go
+++ b/x/authn/crypto/crypto.go
@@ -38,6 +38,12 @@ func (r *PubKeyResolver) New(any *anypb.Any) (PubKey, error) {
 	if !ok {
 		panic(fmt.Errorf("%T does not implement PubKey", pk))
 	}
+	// keys which know what they look like are checked, a malformed one has no address
+	if v, ok := pk.(interface{ Validate() error }); ok {
+		if err := v.Validate(); err != nil {
+			return nil, err
+		}
+	}
 	return pk, nil
 }
 
diff --git a/x/authn/crypto/secp256k1/secp256k1.go b/x/authn/crypto/secp256k1/secp256k1.go
index 62d3adf..fea4c1b 100644
--- a/x/authn/crypto/secp256k1/secp256k1.go
+++ b/x/authn/crypto/secp256k1/secp256k1.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/subtle"
+	"fmt"
 	"io"
 	"math/big"
 
@@ -113,6 +114,14 @@ var _ crypto2.PubKey = &PubKey{}
 // (the x-coordinate), plus one byte for the parity of the y-coordinate.
 const PubKeySize = 33
 
+// Validate checks that the key has the size of a public key
+func (pubKey *PubKey) Validate() error {
+	if len(pubKey.Key) != PubKeySize {
+		return fmt.Errorf("length of pubkey is incorrect: expected %d got %d", PubKeySize, len(pubKey.Key))
+	}
+	return nil
+}
+
 // Address returns a Bitcoin style addresses: RIPEMD160(SHA256(pubkey))
 func (pubKey *PubKey) Address() crypto.Address {
 	if len(pubKey.Key) != PubKeySize {
-- 
2.43.0


From 0ec155f62fea5c50d4df5cd80dd43e5168b1e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 15/38] fix: reject transactions when no decoder is set

---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index e685664..20565d5 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -85,6 +85,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From 1e8588d53e58ab3e9ed4fa5289c0129844262854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 16/38] fix: only let the owner of coins send them

---
 x/bank/handler.go            | 23 +++++++++++++++++++++++
 x/bank/module.go             |  5 ++++-
 x/distribution/extensions.go | 11 ++++++-----
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/x/bank/handler.go b/x/bank/handler.go
index af9d5e5..8365142 100644
--- a/x/bank/handler.go
+++ b/x/bank/handler.go
@@ -1,6 +1,8 @@
 package bank
 
 import (
+	"fmt"
+
 	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
 	"github.com/fdymylja/tmos/core/meta"
 	"github.com/fdymylja/tmos/runtime/errors"
@@ -108,6 +110,27 @@ func (s SendCoinsHandler) createAccountIfNotExist(address string) error {
 	return err
 }
 
+func NewSendCoinsAdmissionHandler() SendCoinsAdmissionHandler {
+	return SendCoinsAdmissionHandler{}
+}
+
+// SendCoinsAdmissionHandler verifies that coins are sent on behalf of who owns them.
+type SendCoinsAdmissionHandler struct{}
+
+func (SendCoinsAdmissionHandler) Validate(req statetransition.AdmissionRequest) error {
+	msg := req.Transition.(*v1alpha12.MsgSendCoins)
+	switch {
+	case msg.FromAddress == "":
+		return fmt.Errorf("no sender address provided")
+	case msg.ToAddress == "":
+		return fmt.Errorf("no receiver address provided")
+	// the bank itself owns all the balances
+	case !req.Users.Has(msg.FromAddress) && !req.Users.Has(moduleName):
+		return fmt.Errorf("%s can not send the coins of %s", req.Users, msg.FromAddress)
+	}
+	return nil
+}
+
 func NewSetCoinsHandler(c module.Client) SetCoinsHandler {
 	return SetCoinsHandler{c: c}
 }
diff --git a/x/bank/module.go b/x/bank/module.go
index 59c5725..7c87500 100644
--- a/x/bank/module.go
+++ b/x/bank/module.go
@@ -6,6 +6,8 @@ import (
 	"github.com/fdymylja/tmos/x/bank/v1alpha1"
 )
 
+const moduleName = "bank"
+
 func NewModule() Module {
 	return Module{}
 }
@@ -15,9 +17,10 @@ type Module struct {
 
 func (m Module) Initialize(client module.Client) module.Descriptor {
 	return module.NewDescriptorBuilder().
-		Named("bank").
+		Named(moduleName).
 		OwnsStateObject(&v1alpha1.Balance{}, v1alpha1.BalanceSchema).
 		HandlesStateTransition(&v1alpha1.MsgSendCoins{}, NewSendCoinsHandler(client)).
+		HandlesAdmission(&v1alpha1.MsgSendCoins{}, NewSendCoinsAdmissionHandler()).
 		HandlesStateTransition(&v1alpha1.MsgSetBalance{}, NewSetCoinsHandler(client)).
 		NeedsStateTransition(&authnv1alpha1.MsgCreateAccount{}).
 		WithGenesis(newGenesisHandler()).Build()
diff --git a/x/distribution/extensions.go b/x/distribution/extensions.go
index 643a4d0..195cb53 100644
--- a/x/distribution/extensions.go
+++ b/x/distribution/extensions.go
@@ -3,6 +3,7 @@ package distribution
 import (
 	v1alpha12 "github.com/fdymylja/tmos/core/coin/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication"
+	"github.com/fdymylja/tmos/runtime/client"
 	"github.com/fdymylja/tmos/runtime/module"
 	"github.com/fdymylja/tmos/x/bank/v1alpha1"
 )
@@ -37,19 +38,19 @@ func (x FeeChecker) Validate(req authentication.Tx) (err error) {
 }
 
 func NewFeeDeduction(c module.Client) authentication.PostAuthenticationHandler {
-	return FeeDeduction{bank: v1alpha1.NewClientSet(c)}
+	return FeeDeduction{c: c}
 }
 
 // FeeDeduction deducts fees from the transaction fee payer and sends them to the fee collector
 type FeeDeduction struct {
-	bank v1alpha1.ClientSet
+	c module.Client
 }
 
 func (x FeeDeduction) Exec(req authentication.PostAuthenticationRequest) (resp authentication.PostAuthenticationResponse, err error) {
-	// move coins and send them to fee collector
-	return resp, x.bank.ExecMsgSendCoins(&v1alpha1.MsgSendCoins{
+	// move coins and send them to fee collector, on behalf of the payer
+	return resp, x.c.Deliver(&v1alpha1.MsgSendCoins{
 		FromAddress: req.Tx.Payer(),
 		ToAddress:   "fee_collector",
 		Amount:      req.Tx.Fee(),
-	})
+	}, client.DeliverImpersonating(req.Tx.Payer()))
 }
-- 
2.43.0


From c6ec3bc18efe8d414ce380dc6b7378507dd2f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 17/38] fix: compute with coin amounts exactly

---
 core/coin/v1alpha1/coin.go | 57 ++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 955c6f9..fe0a68e 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,25 +2,54 @@ package v1alpha1
 
 import (
 	"fmt"
-	"strings"
+	"math/big"
 
 	"github.com/cosmos/cosmos-sdk/types"
 )
 
+// maxAmountBits is the size of the biggest amount types.Int is able to hold
+const maxAmountBits = 255
+
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
-	b := new(strings.Builder)
-	for i, c := range coins {
-		// if it's not the first element we write the comma to separate denoms
-		if i != 0 {
-			_, _ = b.WriteString(",")
+	sdkCoins := make(types.Coins, 0, len(coins))
+	for _, c := range coins {
+		amount, err := parseAmount(c.GetAmount())
+		if err != nil {
+			return nil, err
+		}
+		if err := types.ValidateDenom(c.GetDenom()); err != nil {
+			return nil, err
 		}
-		_, _ = b.WriteString(fmt.Sprintf("%s%s", c.Amount, c.Denom))
+		sdkCoins = append(sdkCoins, types.Coin{Denom: c.GetDenom(), Amount: amount})
 	}
-	sdkCoins, err := types.ParseCoinsNormalized(b.String())
-	if err != nil {
-		return nil, err
+	sdkCoins = sdkCoins.Sort()
+	normalized := make(types.Coins, 0, len(sdkCoins))
+	for i, c := range sdkCoins {
+		if i != 0 && sdkCoins[i-1].Denom == c.Denom {
+			return nil, fmt.Errorf("duplicate denomination %s", c.Denom)
+		}
+		if !c.IsZero() {
+			normalized = append(normalized, c)
+		}
+	}
+	return &Balance{Coins: normalized}, nil
+}
+
+// parseAmount parses an amount, which is a non-negative integer in base 10
+func parseAmount(s string) (types.Int, error) {
+	if s == "" {
+		return types.Int{}, fmt.Errorf("empty amount")
+	}
+	for _, r := range s {
+		if r < '0' || r > '9' {
+			return types.Int{}, fmt.Errorf("invalid amount %q", s)
+		}
 	}
-	return &Balance{Coins: sdkCoins}, nil
+	i, ok := new(big.Int).SetString(s, 10)
+	if !ok || i.BitLen() > maxAmountBits {
+		return types.Int{}, fmt.Errorf("invalid amount %q", s)
+	}
+	return types.NewIntFromBigInt(i), nil
 }
 
 type Balance struct {
@@ -70,6 +99,12 @@ func SafeAdd(initial []*Coin, toAdd []*Coin) (result []*Coin, err error) {
 	if i.IsAnyNegative() || s.IsAnyNegative() {
 		return nil, fmt.Errorf("negative coins")
 	}
+	for _, c := range s.Coins {
+		sum := new(big.Int).Add(i.AmountOf(c.Denom).BigInt(), c.Amount.BigInt())
+		if sum.BitLen() > maxAmountBits {
+			return nil, fmt.Errorf("amount of %s overflows", c.Denom)
+		}
+	}
 	sdkRes := i.Add(s.Coins...)
 	return (&Balance{Coins: sdkRes}).ToCoins(), nil
 }
-- 
2.43.0


From 5d4f97d2e6daf14c590d44be3e5367e4a3ee70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:45 +0000
Subject: [PATCH 18/38] fix: charge fees only to signers of the transaction

---
 x/authn/tx/decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..655bef3 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -141,5 +141,11 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 	if info.Fee.Payer != "" {
 		feePayer = info.Fee.Payer
 	}
-	return feePayer, usersStr, signers, nil
+	// fees can only be charged to who signed the transaction
+	for _, signer := range usersStr {
+		if signer == feePayer {
+			return feePayer, usersStr, signers, nil
+		}
+	}
+	return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer", feePayer)
 }
-- 
2.43.0


From 4f9116b4ee1306b6e02e417bc1bb2389f99dde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:51 +0000
Subject: [PATCH 19/38] fix: reject unknown fields at every level of a
 transaction

Unknown fields were only looked for at the top level of the raw transaction,
the body and the auth info, fields the signer's software does not know could
be hidden in messages, coins, signer infos and public keys.
---
 x/authn/tx/decode_unknowns.go | 35 ++++++++++++++++++++++++++++++++---
 x/authn/tx/decoder.go         |  3 +++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/x/authn/tx/decode_unknowns.go b/x/authn/tx/decode_unknowns.go
index 0114618..82db178 100644
--- a/x/authn/tx/decode_unknowns.go
+++ b/x/authn/tx/decode_unknowns.go
@@ -26,8 +26,13 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 	if err != nil {
 		return err
 	}
-	if len(pb.ProtoReflect().GetUnknown()) != 0 {
-		n, t, i := protowire.ConsumeTag(pb.ProtoReflect().GetUnknown())
+	return rejectUnknowns(pb.ProtoReflect())
+}
+
+// rejectUnknowns reports an error if the message, or any message it contains, has unknown fields
+func rejectUnknowns(m protoreflect.Message) error {
+	if len(m.GetUnknown()) != 0 {
+		n, t, i := protowire.ConsumeTag(m.GetUnknown())
 		if i <= 0 {
 			return fmt.Errorf("Tx: unable to consume tags for unknown fields reporting: %w", protowire.ParseError(i))
 		}
@@ -36,7 +41,28 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 			Type:   fmt.Sprintf("%d", t), // TODO convert to stringified type
 		}
 	}
-	return nil
+	var err error
+	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		switch {
+		case fd.IsMap():
+			if fd.MapValue().Message() == nil {
+				break
+			}
+			v.Map().Range(func(_ protoreflect.MapKey, mv protoreflect.Value) bool {
+				err = rejectUnknowns(mv.Message())
+				return err == nil
+			})
+		case fd.Message() == nil:
+		case fd.IsList():
+			for i := 0; i < v.List().Len() && err == nil; i++ {
+				err = rejectUnknowns(v.List().Get(i).Message())
+			}
+		default:
+			err = rejectUnknowns(v.Message())
+		}
+		return err == nil
+	})
+	return err
 }
 
 func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
@@ -52,6 +78,9 @@ func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Tx: unable to unmarshal message %s to known type", msg.TypeUrl)
 		}
+		if err := rejectUnknowns(rawPb.ProtoReflect()); err != nil {
+			return nil, fmt.Errorf("Tx: message %s: %w", msg.TypeUrl, err)
+		}
 		transition, ok := rawPb.(meta.StateTransition)
 		if !ok {
 			return nil, fmt.Errorf("Tx: %s is not a meta.StateTransition", msg.TypeUrl)
diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index 655bef3..327c5e4 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -118,6 +118,9 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to resolve public key at index %d: %w", i, err)
 		}
+		if err := rejectUnknowns(pk.ProtoReflect()); err != nil {
+			return "", nil, nil, fmt.Errorf("tx: public key at index %d: %w", i, err)
+		}
 		addr, err := bech32.ConvertAndEncode(d.bech32pfx, pk.Address())
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to bechify address of public key at index %d: %w", i, err)
-- 
2.43.0


From fba27ad63f39e718af0be70ef5740b5d427e4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:00 +0000
Subject: [PATCH 20/38] fix: report validator updates once

EndBlock never cleared the updates set by modules, so the same updates were
returned to the consensus engine at the end of every following block.
---
 runtime/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index 76340fb..cd3ff63 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -177,6 +177,13 @@ func (a ABCIApplication) EndBlock(block types.RequestEndBlock) types.ResponseEnd
 	for i, val := range valUpdates.ValidatorUpdates {
 		updates[i] = val.ToLegacy()
 	}
+	// the updates were reported, they must not be reported again in the next blocks
+	if len(updates) != 0 {
+		err = a.rt.Deliver(a.user, &abcictrl.MsgSetValidatorUpdates{})
+		if err != nil {
+			panic(err)
+		}
+	}
 	// updates..
 	return types.ResponseEndBlock{
 		ValidatorUpdates:      updates,
-- 
2.43.0


From 53022e508e239ea4538cf609c6c768bbba2e6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 21/38] fix: address queried objects by their encoded key

The id in a get query was cut at the first slash, so another object could be
returned, and was used as the stored key without encoding it, so objects with
keys other than strings could not be found or were mistaken for one another.
---
 runtime/orm/schema/schema.go |  5 +++++
 runtime/query.go             | 13 +++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 2ffc78f..7bc2991 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -43,6 +43,11 @@ func (s *Schema) NewStateObject() meta.StateObject {
 	return s.mType.NewStateObject()
 }
 
+// Singleton reports if there is only one instance of the meta.StateObject
+func (s *Schema) Singleton() bool {
+	return s.singleton
+}
+
 func (s *Schema) HasIndexes() bool {
 	return s.hasIndexes
 }
diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..5c478fa 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -88,7 +88,8 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	// the id is everything after the kind, as it might contain the separator too
+	split := strings.SplitN(req.Path, "/", 4)
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
@@ -100,8 +101,16 @@ func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
 	if err != nil {
 		return nil, err
 	}
+	var id meta.ID = meta.NewStringID(split[3])
+	if !sch.Singleton() {
+		pk, err := sch.EncodePrimaryKeyString(split[3])
+		if err != nil {
+			return nil, err
+		}
+		id = meta.NewBytesID(pk)
+	}
 	obj := sch.NewStateObject()
-	err = q.store.Get(meta.NewStringID(split[3]), obj)
+	err = q.store.Get(id, obj)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 41a436ae1bfc3bb1727cf852a48686fe26551078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 22/38] fix: refuse list queries instead of answering with an
 empty object

---
 runtime/query.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/query.go b/runtime/query.go
index 5c478fa..f96869e 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -42,6 +42,7 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	case GetStateObjectsPath:
 		response, err = q.get(query)
 	case ListStateObjectsPath:
+		err = fmt.Errorf("list queries are not supported")
 	default:
 		return types.ResponseQuery{Code: 0x1, Log: "unknown verb"}
 	}
-- 
2.43.0


From 05a2342d17e2029420eeaa96d9486757740119ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 23/38] fix: list the API groups in the same order every time

---
 runtime/orm/schema/registry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/orm/schema/registry.go b/runtime/orm/schema/registry.go
index 1428ac5..5862c34 100644
--- a/runtime/orm/schema/registry.go
+++ b/runtime/orm/schema/registry.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/fdymylja/tmos/core/meta"
 )
@@ -67,6 +68,7 @@ func (s *Registry) ListAPIGroups() []string {
 	for k := range s.apiGroups {
 		groups = append(groups, k)
 	}
+	sort.Strings(groups)
 	return groups
 }
 
-- 
2.43.0


From 0efe9d257356e43f219d5e0aecbbce027b0316c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 24/38] fix: keep the name of the key in the paths of the HTTP
 API

The name of the path variable was lowercased but looked up as it is, so
objects whose primary key is named in camel case could never be fetched.
---
 core/apiserver/router/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..223703a 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -79,8 +79,9 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 	case false:
 		// create get
 		def := object.APIDefinition()
-		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
+		// the name of the path variable must remain as it is, as the handler looks it up
+		singleInstancePath := fmt.Sprintf("%s/{%s}",
+			strings.ToLower(fmt.Sprintf("/%s/%s", def.Group, def.Kind)), definition.PrimaryKey,
 		)
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
-- 
2.43.0


From 432d360965ff22cb3092f34bfcea7ed7d123f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 25/38] fix: verify signatures of compressed keys only

The Key of a PubKey is documented to be the compressed form, but VerifySignature
also accepted 65 byte keys.
---
 x/authn/crypto/secp256k1/secp256k1_nocgo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/authn/crypto/secp256k1/secp256k1_nocgo.go b/x/authn/crypto/secp256k1/secp256k1_nocgo.go
index 2d60544..0a3fd0d 100644
--- a/x/authn/crypto/secp256k1/secp256k1_nocgo.go
+++ b/x/authn/crypto/secp256k1/secp256k1_nocgo.go
@@ -34,6 +34,10 @@ func (pubKey *PubKey) VerifySignature(msg []byte, sigStr []byte) bool {
 	if len(sigStr) != 64 {
 		return false
 	}
+	// ParsePubKey also takes uncompressed keys, which have another address
+	if len(pubKey.Key) != PubKeySize {
+		return false
+	}
 	pub, err := secp256k1.ParsePubKey(pubKey.Key, secp256k1.S256())
 	if err != nil {
 		return false
-- 
2.43.0


From 097326b300d599d1b20cd9fcd0405fecc26362c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 26/38] fix: answer snapshot requests instead of panicking

Tendermint's state sync reactor passes any peer's snapshot request on to the
application, so a peer could stop the node.
---
 runtime/abci.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index cd3ff63..fa392d3 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -201,17 +201,17 @@ func (a ABCIApplication) Commit() types.ResponseCommit {
 }
 
 func (a ABCIApplication) ListSnapshots(snapshots types.RequestListSnapshots) types.ResponseListSnapshots {
-	panic("implement me")
+	return types.ResponseListSnapshots{} // none are taken
 }
 
 func (a ABCIApplication) OfferSnapshot(snapshot types.RequestOfferSnapshot) types.ResponseOfferSnapshot {
-	panic("implement me")
+	return types.ResponseOfferSnapshot{Result: types.ResponseOfferSnapshot_ABORT} // none can be restored
 }
 
 func (a ABCIApplication) LoadSnapshotChunk(chunk types.RequestLoadSnapshotChunk) types.ResponseLoadSnapshotChunk {
-	panic("implement me")
+	return types.ResponseLoadSnapshotChunk{}
 }
 
 func (a ABCIApplication) ApplySnapshotChunk(chunk types.RequestApplySnapshotChunk) types.ResponseApplySnapshotChunk {
-	panic("implement me")
+	return types.ResponseApplySnapshotChunk{Result: types.ResponseApplySnapshotChunk_ABORT}
 }
-- 
2.43.0


From 0571a3a723a5457c613bfa2538da096a347c0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 27/38] fix: report objects that have no JSON form instead of
 panicking

An account with a key wrapper of unknown type can be stored by any user; asking
for it made Query panic, and with it the node.
---
 core/apiserver/router/server.go | 8 +++++---
 runtime/query.go                | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 223703a..34ccca7 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -2,7 +2,6 @@ package router
 
 import (
 	"fmt"
-	"io"
 	"net/http"
 	"strings"
 
@@ -246,10 +245,13 @@ func newListHandler(c client.Client, schema *schema.Schema) http.HandlerFunc {
 	}
 }
 
-func writeObject(w io.Writer, obj proto.Message) bool {
+func writeObject(w http.ResponseWriter, obj proto.Message) bool {
 	b, err := protojson.Marshal(obj)
 	if err != nil {
-		panic(err)
+		// for example an Any whose type is not known
+		w.WriteHeader(http.StatusInternalServerError)
+		_, _ = w.Write([]byte(err.Error()))
+		return false
 	}
 	_, err = w.Write(b)
 	if err != nil {
diff --git a/runtime/query.go b/runtime/query.go
index f96869e..146d2bc 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -51,7 +51,8 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	}
 	b, err := protojson.Marshal(response)
 	if err != nil {
-		panic(err)
+		// for example an Any whose type is not known
+		return types.ResponseQuery{Code: 0x1, Log: err.Error()}
 	}
 	return types.ResponseQuery{
 		Value: b,
-- 
2.43.0


From 85baba767407a3ca54561cd48585bb3586232c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 28/38] fix: list users in the same order on every node

Handlers get the users of a transaction; listed in the order of a map, whatever
they derive from it (state, the first error) differed between nodes.
---
 runtime/authentication/user/user.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/authentication/user/user.go b/runtime/authentication/user/user.go
index 5528b77..44d2a91 100644
--- a/runtime/authentication/user/user.go
+++ b/runtime/authentication/user/user.go
@@ -1,6 +1,9 @@
 package user
 
-import "fmt"
+import (
+	"fmt"
+	"sort"
+)
 
 // User uniquely identifies a user in the authentication context
 type User interface {
@@ -52,17 +55,19 @@ func (d *DefaultUsers) has(name string) bool {
 	return exists
 }
 
+// List returns the users ordered by name: every node must see the same order
 func (d *DefaultUsers) List() []User {
 	u := make([]User, 0, len(d.users))
 	for _, user := range d.users {
 		u = append(u, user)
 	}
+	sort.Slice(u, func(i, j int) bool { return u[i].GetName() < u[j].GetName() })
 	return u
 }
 
 func (d *DefaultUsers) String() string {
 	uStr := make([]string, 0, len(d.users))
-	for _, u := range d.users {
+	for _, u := range d.List() {
 		uStr = append(uStr, u.String())
 	}
 	return fmt.Sprintf("%s", uStr)
-- 
2.43.0


From 6dce91b33ac5cfdfae7f3ffdedd225ce04ff2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 29/38] fix: the API server can be stopped as soon as it was
 started

The server was set by the goroutine that serves, so that a stop that came before
it ran panicked and left the server running.
---
 core/apiserver/module.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index a8a0aa6..8680312 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -68,10 +68,12 @@ func (a *apiServer) Start() error {
 		return err
 	}
 
+	// set before Start returns, so that Stop finds it whenever it is called
+	server := &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
+	a.server = server
 	go func() {
-		a.server = &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
-		err := a.server.ListenAndServe()
-		if err != nil {
+		err := server.ListenAndServe()
+		if err != nil && err != http.ErrServerClosed {
 			klog.ErrorS(err, "whilst serving")
 		}
 	}()
@@ -80,5 +82,9 @@ func (a *apiServer) Start() error {
 }
 
 func (a *apiServer) Stop() error {
+	if a.server == nil {
+		// never started
+		return nil
+	}
 	return a.server.Shutdown(context.TODO())
 }
-- 
2.43.0


From 3680475a6e9371aea9c54fdebeba2bd018754489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 30/38] fix: describe messages nested in other messages in the
 API specification

---
 pkg/protoutils/oas3schema/oas3schema.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 750c50e..70a45a2 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -459,7 +459,7 @@ func itemsItemForReference(xref string) *v3.ItemsItem {
 
 // fullMessageTypeName builds the full type name of a message.
 func fullMessageTypeName(md protoreflect.MessageDescriptor) string {
-	return "." + string(md.ParentFile().Package()) + "." + string(md.Name())
+	return "." + string(md.FullName())
 }
 
 func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.Message) *v3.MediaTypes {
@@ -500,8 +500,14 @@ func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.M
 
 // addSchemasToDocumentV3 adds info from one file descriptor.
 func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, file *protogen.File) {
+	g.addMessagesToDocumentV3(d, file.Messages)
+}
+
+// addMessagesToDocumentV3 adds the given messages, and the ones nested in them.
+func (g *OpenAPIv3Generator) addMessagesToDocumentV3(d *v3.Document, messages []*protogen.Message) {
 	// For each message, generate a definition.
-	for _, message := range file.Messages {
+	for _, message := range messages {
+		g.addMessagesToDocumentV3(d, message.Messages)
 		typeName := fullMessageTypeName(message.Desc)
 		// Only generate this if we need it and haven't already generated it.
 		if !contains(g.requiredSchemas, typeName) ||
-- 
2.43.0


From 59f7038c6029ce1ccadaa8d5974e178f85e37bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 31/38] fix: describe the lists of all objects of a file in the
 API specification

---
 pkg/protoutils/forge/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/protoutils/forge/list.go b/pkg/protoutils/forge/list.go
index 5a389fe..27167e5 100644
--- a/pkg/protoutils/forge/list.go
+++ b/pkg/protoutils/forge/list.go
@@ -21,7 +21,8 @@ func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.Mess
 	fd := message.ProtoReflect().Descriptor().ParentFile()
 	md := message.ProtoReflect().Descriptor()
 	forgedFdp := &descriptorpb.FileDescriptorProto{
-		Name:       ptrprim.String(fmt.Sprintf("%s/%s", PackagePrefix, fd.Path())),
+		// every list has a file of its own, as the file of the message can have many messages
+		Name:       ptrprim.String(fmt.Sprintf("%s/%s/%s", PackagePrefix, fd.Path(), md.Name())),
 		Package:    ptrprim.String(fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())),
 		Dependency: []string{fd.Path()},
 		MessageType: []*descriptorpb.DescriptorProto{
-- 
2.43.0


From 7ea62a34f61562df4a4a74aa94801672d93932d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 32/38] fix: describe messages which contain themselves in the
 API specification

---
 pkg/protoutils/oas3schema/oas3schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 70a45a2..42c441d 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -75,6 +75,8 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 	if _, exists := g.requiredObjectsSet[message.FullName()]; exists {
 		return nil
 	}
+	// mark it before its fields are inspected, as messages can contain themselves
+	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	// check if it has msg field
 	nestedMsgs := map[protoreflect.FullName]protoreflect.MessageDescriptor{}
 	for i := 0; i < message.Fields().Len(); i++ {
@@ -88,9 +90,7 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 		if err != nil {
 			return err
 		}
-		g.requiredObjectsSet[message.FullName()] = struct{}{}
 	}
-	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	g.requiredObjects = append(g.requiredObjects, message)
 	g.requiredSchemas = append(g.requiredSchemas, fullMessageTypeName(message))
 	return nil
-- 
2.43.0


From 82deb799f37b6df30f3cc7485ed5f75c8087314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 33/38] fix: give 64-bit integers and enums their JSON types in
 the API specification

---
 pkg/protoutils/oas3schema/oas3schema.go | 27 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 42c441d..2bc98b0 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -559,16 +559,19 @@ func (g *OpenAPIv3Generator) addMessagesToDocumentV3(d *v3.Document, messages []
 				case protoreflect.Int32Kind,
 					protoreflect.Sint32Kind,
 					protoreflect.Uint32Kind,
-					protoreflect.Int64Kind,
+					protoreflect.Sfixed32Kind,
+					protoreflect.Fixed32Kind:
+					fieldSchema.Items = itemsItemForTypeName("integer")
+				case protoreflect.Int64Kind,
 					protoreflect.Sint64Kind,
 					protoreflect.Uint64Kind,
-					protoreflect.Sfixed32Kind,
-					protoreflect.Fixed32Kind,
 					protoreflect.Sfixed64Kind,
 					protoreflect.Fixed64Kind:
-					fieldSchema.Items = itemsItemForTypeName("integer")
+					// 64-bit integers are serialized as strings
+					fieldSchema.Items = itemsItemForTypeName("string")
 				case protoreflect.EnumKind:
-					fieldSchema.Items = itemsItemForTypeName("integer")
+					// Enums are serialized as the names of their values
+					fieldSchema.Items = itemsItemForTypeName("string")
 				case protoreflect.BoolKind:
 					fieldSchema.Items = itemsItemForTypeName("boolean")
 				case protoreflect.FloatKind, protoreflect.DoubleKind:
@@ -609,17 +612,21 @@ func (g *OpenAPIv3Generator) addMessagesToDocumentV3(d *v3.Document, messages []
 				case protoreflect.Int32Kind,
 					protoreflect.Sint32Kind,
 					protoreflect.Uint32Kind,
-					protoreflect.Int64Kind,
+					protoreflect.Sfixed32Kind,
+					protoreflect.Fixed32Kind:
+					fieldSchema.Type = "integer"
+					fieldSchema.Format = k.String()
+				case protoreflect.Int64Kind,
 					protoreflect.Sint64Kind,
 					protoreflect.Uint64Kind,
-					protoreflect.Sfixed32Kind,
-					protoreflect.Fixed32Kind,
 					protoreflect.Sfixed64Kind,
 					protoreflect.Fixed64Kind:
-					fieldSchema.Type = "integer"
+					// 64-bit integers are serialized as strings
+					fieldSchema.Type = "string"
 					fieldSchema.Format = k.String()
 				case protoreflect.EnumKind:
-					fieldSchema.Type = "integer"
+					// Enums are serialized as the names of their values
+					fieldSchema.Type = "string"
 					fieldSchema.Format = "enum"
 				case protoreflect.BoolKind:
 					fieldSchema.Type = "boolean"
-- 
2.43.0


From a617417e2f1f28fa80a9f1af0623ed1ee2469f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 34/38] fix: generated client parameters do not take the names
 of keywords and identifiers

---
 pkg/modulecodegen/codegen.go | 24 ++++++++++++------------
 pkg/modulecodegen/util.go    | 17 +++++++++++++++++
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index d9b1a37..95aeda3 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -226,12 +226,12 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 	case true:
 		g.P("Get(opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
 	case false:
-		g.P("Get(", primaryKey, " ", primaryKeyGoType, ", opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
+		g.P("Get(", paramName(primaryKey), " ", primaryKeyGoType, ", opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
 		g.P("List(opts ...", clientImportPackage.Ident("ListOption"), ") (", message.GoIdent, "Iterator, error)")
 	}
-	g.P("Create(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error")
-	g.P("Delete(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error")
-	g.P("Update(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("UpdateOption"), ") error")
+	g.P("Create(", paramName(toLowerCamelCase(message.GoIdent)), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error")
+	g.P("Delete(", paramName(toLowerCamelCase(message.GoIdent)), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error")
+	g.P("Update(", paramName(toLowerCamelCase(message.GoIdent)), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("UpdateOption"), ") error")
 	g.P("}")
 	g.P()
 
@@ -253,9 +253,9 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 		g.P("return _spfGenO, nil")
 		g.P("}")
 	case false:
-		g.P("func (x *", unexportedClient, ") ", "Get(", primaryKey, " ", primaryKeyGoType, ", opts... ", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error) {")
+		g.P("func (x *", unexportedClient, ") ", "Get(", paramName(primaryKey), " ", primaryKeyGoType, ", opts... ", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error) {")
 		g.P("_spfGenO := new(", message.GoIdent, ")")
-		g.P("_spfGenID := ", metaPkg.Ident(metaIDConstructor[primaryKeyGoType]), "(", primaryKey, ")")
+		g.P("_spfGenID := ", metaPkg.Ident(metaIDConstructor[primaryKeyGoType]), "(", paramName(primaryKey), ")")
 		g.P("_spfGenErr := x.client.Get(_spfGenID, _spfGenO, opts...)")
 		g.P("if _spfGenErr != nil {")
 		g.P("return nil, _spfGenErr")
@@ -271,18 +271,18 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 	}
 	// gen create
 	g.P()
-	g.P("func (x *", unexportedClient, ") ", "Create(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error {")
-	g.P("return x.client.Create(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Create(", paramName(toLowerCamelCase(message.GoIdent)), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error {")
+	g.P("return x.client.Create(", paramName(toLowerCamelCase(message.GoIdent)), ", opts...)")
 	g.P("}")
 	g.P()
 	// gen delete
-	g.P("func (x *", unexportedClient, ") ", "Delete(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error {")
-	g.P("return x.client.Delete(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Delete(", paramName(toLowerCamelCase(message.GoIdent)), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error {")
+	g.P("return x.client.Delete(", paramName(toLowerCamelCase(message.GoIdent)), ", opts...)")
 	g.P("}")
 	g.P()
 	// gen update
-	g.P("func (x *", unexportedClient, ") ", "Update(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ... ", clientImportPackage.Ident("UpdateOption"), ") error {")
-	g.P("return x.client.Update(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Update(", paramName(toLowerCamelCase(message.GoIdent)), " *", message.GoIdent, ", opts ... ", clientImportPackage.Ident("UpdateOption"), ") error {")
+	g.P("return x.client.Update(", paramName(toLowerCamelCase(message.GoIdent)), ", opts...)")
 	g.P("}")
 	g.P()
 
diff --git a/pkg/modulecodegen/util.go b/pkg/modulecodegen/util.go
index a78b700..3c553c9 100644
--- a/pkg/modulecodegen/util.go
+++ b/pkg/modulecodegen/util.go
@@ -1,6 +1,8 @@
 package modulecodegen
 
 import (
+	"go/token"
+	"strings"
 	"unicode"
 
 	"google.golang.org/protobuf/compiler/protogen"
@@ -11,3 +13,18 @@ func toLowerCamelCase(ident protogen.GoIdent) string {
 	lower := unicode.ToLower((rune)(id[0]))
 	return string(lower) + id[1:]
 }
+
+// paramName returns the name of the parameter which stands for the given name in the generated code:
+// the unexported name, unless it is a keyword or has a meaning of its own where the parameter is used.
+func paramName(name string) string {
+	name = string(unicode.ToLower((rune)(name[0]))) + name[1:]
+	switch {
+	case token.IsKeyword(name), strings.HasPrefix(name, "_spfGen"):
+		return name + "_"
+	}
+	switch name {
+	case "x", "opts", "new", "nil", "meta":
+		return name + "_"
+	}
+	return name
+}
-- 
2.43.0


From b67158d02b644bdda9297942088089020d53feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:20 +0000
Subject: [PATCH 35/38] fix: the get command refuses to run without the name of
 the object

---
 pkg/spfcli/get.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/spfcli/get.go b/pkg/spfcli/get.go
index 8d08abf..145fb94 100644
--- a/pkg/spfcli/get.go
+++ b/pkg/spfcli/get.go
@@ -8,7 +8,7 @@ func GetCmd(cli CLIContext) *cobra.Command {
 	return &cobra.Command{
 		Use:   "get",
 		Short: "fetch a state object in the apiserver",
-		Args:  cobra.MinimumNArgs(2),
+		Args:  cobra.ExactArgs(3),
 		RunE: func(cmd *cobra.Command, args []string) error {
 			client := cli.Client()
 
-- 
2.43.0


From 6b4db015e6f35381bc4a670bb7a1c2ff4e89ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:29 +0000
Subject: [PATCH 36/38] fix: look for maps in the groups of a message too

---
 pkg/protoutils/desc/desc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e32212d..be648e6 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -65,6 +65,8 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 			return true
 		case fd.Kind() == protoreflect.MessageKind:
 			toInspect = append(toInspect, fd.Message())
+		case fd.Kind() == protoreflect.GroupKind:
+			toInspect = append(toInspect, fd.Message())
 		default:
 			continue
 		}
-- 
2.43.0


From b9407cd825452c4f5bf12915c848b08cdd69b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:27 +0000
Subject: [PATCH 37/38] fix: describe the path parameter of single objects

---
 core/apiserver/router/openapi.go | 20 ++++++++++++++++----
 core/apiserver/router/server.go  |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/apiserver/router/openapi.go b/core/apiserver/router/openapi.go
index 1644ea1..691eab1 100644
--- a/core/apiserver/router/openapi.go
+++ b/core/apiserver/router/openapi.go
@@ -21,8 +21,20 @@ func NewOpenAPIBuilder() *openAPI {
 	}
 }
 
-func newGetParams() []*v3.Parameter {
-	return nil
+func newGetParams(primaryKey string) []*v3.Parameter {
+	return []*v3.Parameter{
+		{
+			Name:        primaryKey,
+			In:          "path",
+			Description: "The primary key of the object",
+			Required:    true,
+			Schema: &v3.SchemaOrReference{Oneof: &v3.SchemaOrReference_Schema{
+				Schema: &v3.Schema{
+					Type: "string",
+				},
+			}},
+		},
+	}
 }
 
 func newSingletonParams() []*v3.Parameter {
@@ -89,10 +101,10 @@ func (o openAPI) AddSingleton(obj meta.StateObject, path string) error {
 	return nil
 }
 
-func (o openAPI) AddObject(obj meta.StateObject, singlePath string, listPath string) error {
+func (o openAPI) AddObject(obj meta.StateObject, primaryKey string, singlePath string, listPath string) error {
 	opID := fmt.Sprintf("get.%s", meta.Name(obj))
 	comment := fmt.Sprintf("Returns an instance of %s", meta.Name(obj))
-	err := o.gen.AddRawOperation("GET", opID, comment, singlePath, "", newGetParams(), obj)
+	err := o.gen.AddRawOperation("GET", opID, comment, singlePath, "", newGetParams(primaryKey), obj)
 	if err != nil {
 		return err
 	}
diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 34ccca7..74c5619 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -95,7 +95,7 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 			HandlerFunc(newListHandler(s.client, sch))
 
 		// add to open API spec.
-		err = s.openAPI.AddObject(object, singleInstancePath, listInstancePath)
+		err = s.openAPI.AddObject(object, definition.PrimaryKey, singleInstancePath, listInstancePath)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ced19f766e9d1989540f65d798f50e3eff7d38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:22 +0000
Subject: [PATCH 38/38] fix: lists at a height ask for that height (C38)

---
 runtime/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/client/client.go b/runtime/client/client.go
index d0b6d74..f7a1852 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -87,7 +87,7 @@ type ListOption func(opt *ListOptionsRaw)
 // NOTE: this option can not be used by ModuleClient
 func ListAtHeight(height uint64) ListOption {
 	return func(opt *ListOptionsRaw) {
-		return
+		opt.Height = height
 	}
 }
 
-- 
2.43.0

