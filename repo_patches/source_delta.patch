From 3e442f88addd899d335a23a417cfdaf8c8dfa2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 01/19] fix: deliver reply path and final payloads when sending
 directly to a blinded route

directToBlinded built the onion for the blinded hops without the request's
final payloads and reply path, so a message sent to a blinded destination
whose introduction node is the only un-blinded hop arrived empty.
---
 routes/blinded.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..315e43b 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -693,13 +693,20 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
+	hopCount := len(req.blindedDestination.Hops)
 	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// If we're on the last hop, add our optional final payload
+		// and reply path.
+		if i == hopCount-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From a0a46439242f8968c3187504b7d6cf5879409cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 02/19] fix: reject offer strings with + that is not followed
 by a bech32 character

The check for empty parts ran before whitespace was trimmed, so a trailing
'+ ' or '+ +' was accepted, as was whitespace before a '+'.
---
 offers/bech32.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..abd782c 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 const (
@@ -117,21 +118,22 @@ func toBytes(chars string) ([]byte, error) {
 // surrounded by bech32 characters. The offer string with the "+" characters
 // removed is returned.
 func stripOffer(offer string) (string, error) {
-	parts := strings.Split(offer, "+")
+	// Ignore any whitespace around the offer string as a whole.
+	parts := strings.Split(strings.TrimSpace(offer), "+")
 
 	for i, part := range parts {
+		// We should allow whitespace following a "+" character. Trim
+		// it so that we can check that except for these spaces, all
+		// other characters are bech32. We replace the entry in our
+		// slice to strip out these spaces.
+		parts[i] = strings.TrimLeftFunc(part, unicode.IsSpace)
+
 		// If any of our parts are empty, we either had consecutive or
 		// starting / ending "+" in our string.
-		if part == "" {
+		if parts[i] == "" {
 			return "", ErrIncorrectSplit
 		}
 
-		// We should allow whitespace following a "+" character. Trim
-		// all whitespace so that we can check that except for spaces,
-		// all other characters are bech32. We replace the entry in our
-		// slice to strip out these paces.
-		parts[i] = strings.TrimSpace(part)
-
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From 47c053ea8fd71c03bb1a60146f930b69637e05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 03/19] fix: include each unknown record's own value in the
 merkle root

The encode closure of unknown records captured the loop variable, so with
two or more unknown records all of them were hashed with the value of the
last one visited (in random map order), and valid signatures over such
streams were rejected.
---
 lnwire/bolt12_merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..16cdd0c 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -289,6 +289,10 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 	var records []tlv.Record
 
 	for tlvType, tlvBytes := range parsedTypes {
+		// Copy our loop variable, because it is captured by the encode
+		// closure below.
+		tlvBytes := tlvBytes
+
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
 		if len(tlvBytes) == 0 {
-- 
2.43.0


From 60d5899bbee652033280b2f69ff8175c14c14b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 04/19] fix: build merkle tree with its deepest branches on the
 lowest-order leaves

Combined branches were queued behind the remaining ones, which pairs the
odd branch out with the first pair for 5, 7, 9... records, rather than
moving it up a level as bolt 12 requires.
---
 lnwire/bolt12_merkle.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 16cdd0c..4412bdf 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -125,20 +125,32 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 	return lntypes.MakeHash(hash[:])
 }
 
-// CalculateRoot combines a set of branches into a merkle root.
+// CalculateRoot combines a set of branches into a merkle root. Branches are
+// combined in adjacent pairs one level at a time, so if the number of branches
+// is not a power of two the tree is deepest for the lowest-order branches (as
+// required by the specification).
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
 	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+		nextLevel := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for i := 0; i+1 < len(branches); i += 2 {
+			left, right := orderNodes(branches[i], branches[i+1])
+
+			nextLevel = append(nextLevel, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+		}
+
+		// If we have an odd number of branches, the last one doesn't
+		// have a sibling on this level, so it moves up as-is.
+		if len(branches)%2 != 0 {
+			nextLevel = append(
+				nextLevel, branches[len(branches)-1],
+			)
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		branches = nextLevel
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From 40c756d1461d49b841a71a6cc60016e7426c1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 05/19] fix: commit decoded merkle roots to every record as it
 was encoded

The root was calculated from re-encoded fields, so records that decode to a
zero value (empty description or issuer, zero chain hash, empty features...)
and unknown records without a value were left out of it. Such records could
be added to a signed artifact without invalidating its signature.
---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_merkle.go          |  4 +++-
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 27 +++++++++++++++------------
 5 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..5a77579 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -398,7 +398,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..3240905 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 4412bdf..30f5c40 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -307,7 +307,9 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
+		// Note that unknown records with no value have an empty but
+		// non-nil entry.
+		if tlvBytes == nil {
 			continue
 		}
 
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..f81b504 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -61,21 +61,24 @@ type tlvTree interface {
 }
 
 // decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// have decoded. The root commits to every record exactly as it was encoded by
+// the sender. This includes odd records that are unknown to us (the sender
+// would have known them) and records with values that we do not distinguish
+// from an absent record once they are decoded (such as empty strings).
+func decodeMerkleRoot(encoded []byte) (lntypes.Hash, error) {
+	// Parse our stream without providing any known records, so that we get
+	// the raw bytes for every record.
+	stream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("raw stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := stream.DecodeWithParsedTypes(bytes.NewReader(encoded))
+	if err != nil {
+		return lntypes.Hash{}, fmt.Errorf("raw records: %w", err)
+	}
+
+	root, err := MerkleRoot(unknownRecordsFromParsed(tlvMap))
 	if err != nil {
 		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
-- 
2.43.0


From 973db91479a160018755beaf6fbfe1721a54fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 06/19] fix: deliver final payloads that have no value

Validation explicitly allows 'marker' payloads with no body, but decoding
mistook unknown payloads of zero length for payloads that had already been
recognized and dropped them.
---
 lnwire/onion_msg_payload.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..f853553 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry, tlvs without a
+		// value have an empty but non-nil entry).
+		if tlvBytes == nil {
 			continue
 		}
 
@@ -184,8 +185,8 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 
 	// If we read out an invoice tlv sub-namespace, add it to our set of
 	// final payloads. This value won't have been added in the loop above,
-	// because we recognized the TLV so len(tlvMap[invoiceType].tlvBytes)
-	// will be zero (thus, skipped above).
+	// because we recognized the TLV so tlvMap[invoiceType] will be nil
+	// (thus, skipped above).
 	if _, ok := tlvMap[InvoiceNamespaceType]; ok {
 		onionPayload.FinalHopPayloads = append(
 			onionPayload.FinalHopPayloads, invoicePayload,
-- 
2.43.0


From aae20e30a6070c0bab3e93687f8f19e4c0a9e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 07/19] fix: bind decoding of reply paths to the length of
 their record

Hops were read past the end of the record, and bytes left over after the
last hop were interpreted as the next record of the payload.
---
 lnwire/onion_msg_payload.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index f853553..f4da37c 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -314,18 +314,23 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
-		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
+		// Limit ourselves to the length of the record, so that we
+		// can't read past its end.
+		limited := &io.LimitedReader{R: r, N: int64(l)}
+
+		err := tlv.DPubKey(limited, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
 		}
 
-		err = tlv.DPubKey(r, &p.BlindingPoint, buf, 33)
+		err = tlv.DPubKey(limited, &p.BlindingPoint, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode blinding point:  %w", err)
 		}
 
 		var hopCount uint8
-		if err := tlv.DUint8(r, &hopCount, buf, 1); err != nil {
+		err = tlv.DUint8(limited, &hopCount, buf, 1)
+		if err != nil {
 			return fmt.Errorf("decode hop count: %w", err)
 		}
 
@@ -335,13 +340,22 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 
 		for i := 0; i < int(hopCount); i++ {
 			hop := &BlindedHop{}
-			if err := decodeBlindedHop(r, hop, buf); err != nil {
+			if err := decodeBlindedHop(limited, hop, buf); err != nil {
 				return fmt.Errorf("decode hop: %w", err)
 			}
 
 			p.Hops = append(p.Hops, hop)
 		}
 
+		// Fail if the record is longer than the path that it contains.
+		// Otherwise, the remaining bytes would be interpreted as the
+		// next record in the stream.
+		if limited.N != 0 {
+			return tlv.NewTypeForDecodingErr(
+				val, "*ReplyPath", l, l-uint64(limited.N),
+			)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From e1696529006a31316762bc23b66cae13f9c6ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 08/19] fix: refuse to encode reply paths and onions that
 overflow their length

Lengths were silently truncated to the size of their length field, producing
an encoding that does not decode to what was encoded.
---
 lnwire/onion_message.go     |  5 +++++
 lnwire/onion_msg_payload.go | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..5bab8e5 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -76,6 +77,10 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("%w: %v bytes onion", ErrTooLong, onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index f4da37c..010e348 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -41,6 +42,10 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrTooLong is returned when a field can't be encoded because it does
+	// not fit its length field.
+	ErrTooLong = errors.New("field too long to encode")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -288,6 +293,11 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v hops", ErrTooLong,
+				len(p.Hops))
+		}
+
 		hopCount := uint8(len(p.Hops))
 		if hopCount == 0 {
 			return ErrNoHops
@@ -385,6 +395,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("%w: %v bytes encrypted data",
+				ErrTooLong, len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From 86801dde54504459febce06ffa17165a853748fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 09/19] fix: allow invoice requests for offers with only one
 quantity bound

An offer that sets just a minimum or just a maximum quantity requires the
request to set a quantity. It was treated as an offer without quantity, so
no request could be created for it (or one without a quantity was).
---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 3240905..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From 035e39db579011425c08d25d493e3a6613c3f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 10/19] fix: return an error for routes with more hops than an
 onion can hold

Sphinx paths are arrays of fixed size, so a blinded destination (or queried
route) with too many hops caused an index out of range panic, which takes
down the whole process.
---
 routes/blinded.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index 315e43b..cbe68ad 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than we can
+	// include in an onion.
+	ErrTooManyHops = errors.New("route exceeds maximum hop count")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,10 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if err := checkHopCount(ourHopCount + extraHopCount); err != nil {
+		return nil, err
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -627,6 +635,17 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 	return &sphinxPath, nil
 }
 
+// checkHopCount returns an error if a route has too many hops to be included
+// in an onion.
+func checkHopCount(hopCount int) error {
+	if hopCount > sphinx.NumMaxHops {
+		return fmt.Errorf("%w: %v hops, maximum: %v", ErrTooManyHops,
+			hopCount, sphinx.NumMaxHops)
+	}
+
+	return nil
+}
+
 // createSphinxHop encodes an onion message payload and produces a sphinx
 // onion hop for it.
 func createSphinxHop(nodeID btcec.PublicKey,
@@ -694,6 +713,10 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
 	hopCount := len(req.blindedDestination.Hops)
+	if err := checkHopCount(hopCount); err != nil {
+		return nil, err
+	}
+
 	for i, hop := range req.blindedDestination.Hops {
 		payload := &lnwire.OnionMessagePayload{
 			EncryptedData: hop.EncryptedData,
-- 
2.43.0


From 5e764cd2d146bf41064378028e712ec9f97a326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 11/19] fix: connect to lnd when the maximum number of retries
 is configured

LNDRetires is a uint8, so adding one to 255 overflowed to zero attempts and
Start continued with a nil lnd connection.
---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From 203479bc6ec1e45a0e20570094a2157dff62fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 12/19] fix: release the messenger when a subscription's stream
 fails

If sending to the client failed while the messenger was blocked handing over
the next message, deregistration waited for the messenger and the messenger
for the subscription, so no message or registration was processed anymore.
---
 rpcserver/impl_subscribe_onion_payload.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..cf93e05 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,11 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Create a cancelable context so that we can release our handler if we
+	// exit for reasons other than a client cancel or server shutdown.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -96,6 +101,11 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		// Nobody is consuming messages anymore, so make sure that the
+		// messenger isn't blocked on our handler. It would not be able
+		// to process our deregistration otherwise.
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From 35a19097a651b9292099fb35cef80c853e3ca5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 13/19] fix: fail handler registrations once the event loop has
 exited

After lnd ended the custom message stream, the event loop no longer
received registrations, so RegisterHandler and DeregisterHandler (and the
subscription rpcs using them) hung until the messenger was stopped.
---
 onionmsg/messenger.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..1c82854 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -167,6 +167,10 @@ type Messenger struct {
 	// signal to calling code that it should gracefully exit.
 	requestShutdown func(err error)
 
+	// done is closed when our event loop has exited, so can't process any
+	// more requests.
+	done chan struct{}
+
 	wg   sync.WaitGroup
 	quit chan struct{}
 }
@@ -187,6 +191,7 @@ func NewOnionMessenger(params *chaincfg.Params, lnd LndOnionMsg,
 		onionMsgHandlers:    make(map[tlv.Type]OnionMessageHandler),
 		handlerRegistration: make(chan *registerHandler),
 		requestShutdown:     shutdown,
+		done:                make(chan struct{}),
 		quit:                make(chan struct{}),
 	}
 }
@@ -207,6 +212,8 @@ func (m *Messenger) Start() error {
 		defer m.wg.Done()
 
 		err := m.manageOnionMessages(context.Background())
+		close(m.done)
+
 		if err != nil && err != ErrShuttingDown {
 			m.requestShutdown(err)
 		}
@@ -281,6 +288,10 @@ func (m *Messenger) handleRegistration(request *registerHandler,
 	select {
 	case m.handlerRegistration <- request:
 
+	case <-m.done:
+		return fmt.Errorf("%w: could not %v: %v",
+			ErrShuttingDown, action, request.tlvType)
+
 	case <-m.quit:
 		return fmt.Errorf("%w: could not %v: %v",
 			ErrShuttingDown, action, request.tlvType)
-- 
2.43.0


From 896af8a5b279bf2860d4235989c01a88a982566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 14/19] fix: release rpcs waiting for startup when the server
 stops

An rpc waiting for a server that is stopped before it was started, or that
failed to start, would hang until its caller gave up.
---
 rpcserver/server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rpcserver/server.go b/rpcserver/server.go
index 574335e..80e3730 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -123,14 +123,25 @@ func (s *Server) Stop() error {
 	return nil
 }
 
-// waitForReady blocks until the server is initialized or the context provided
-// is cancelled.
+// waitForReady blocks until the server is initialized, the context provided is
+// cancelled or the server is shut down.
 func (s *Server) waitForReady(ctx context.Context) error {
+	// If we're already set up there is nothing to wait for.
+	select {
+	case <-s.ready:
+		return nil
+
+	default:
+	}
+
 	select {
 	case <-s.ready:
 		return nil
 
 	case <-ctx.Done():
 		return status.Error(codes.Unavailable, "server not ready")
+
+	case <-s.quit:
+		return ErrShuttingDown
 	}
 }
-- 
2.43.0


From 16eea93841480b6102c3a6b4195f5431eddf2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 15/19] fix: don't start a server that has been stopped

A server stopped before or during startup would start its messenger
afterwards, with nothing left to stop it.
---
 rpcserver/server.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rpcserver/server.go b/rpcserver/server.go
index 80e3730..ae73c0e 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/carlakc/boltnd/offersrpc"
@@ -28,6 +29,10 @@ type Server struct {
 	started int32 // to be used atomically
 	stopped int32 // to be used atomically
 
+	// startupMtx serializes setup and teardown of the server, so that a
+	// server stopped during startup doesn't leave anything running.
+	startupMtx sync.Mutex
+
 	// lnd provides a connection to lnd's other grpc servers. Since we need
 	// to connect to the grpc servers, this can't be done while we're busy
 	// setting up ourselves as a sub-server. Consequently, this value will
@@ -73,6 +78,13 @@ func (s *Server) Start(lnd *lndclient.LndServices) error {
 		return errors.New("server already started")
 	}
 
+	s.startupMtx.Lock()
+	defer s.startupMtx.Unlock()
+
+	if atomic.LoadInt32(&s.stopped) == 1 {
+		return errors.New("server already stopped")
+	}
+
 	log.Info("Starting rpc server")
 	s.lnd = lnd
 
@@ -113,6 +125,9 @@ func (s *Server) Stop() error {
 	// Signal to goroutines to shut down.
 	close(s.quit)
 
+	s.startupMtx.Lock()
+	defer s.startupMtx.Unlock()
+
 	// Shut down onion messenger if non-nil.
 	if s.onionMsgr != nil {
 		if err := s.onionMsgr.Stop(); err != nil {
-- 
2.43.0


From 19f7ff714a1ec0258a68e05ef5f693ebebb3ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 16/19] fix: stop connecting to lnd when stopped during startup

Stopping boltnd while it was still trying to connect to lnd left it trying,
and running with nothing to stop it once it had connected.
---
 boltnd.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index d25c860..9e96889 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -22,9 +23,15 @@ type Boltnd struct {
 	started int32 // to be used atomically
 	stopped int32 // to be used atomically
 
-	lnd       *lndclient.GrpcLndServices
+	// lndMtx protects access to lnd.
+	lndMtx sync.Mutex
+	lnd    *lndclient.GrpcLndServices
+
 	rpcServer *rpcserver.Server
 
+	// quit is closed when boltnd is stopped.
+	quit chan struct{}
+
 	cfg *Config
 }
 
@@ -48,7 +55,8 @@ func NewBoltnd(opts ...ConfigOption) (*Boltnd, error) {
 	setupLoggers(cfg)
 
 	impl := &Boltnd{
-		cfg: cfg,
+		cfg:  cfg,
+		quit: make(chan struct{}),
 	}
 
 	var err error
@@ -70,16 +78,29 @@ func (b *Boltnd) Start() error {
 
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
-	var connErr error
+	var (
+		lnd     *lndclient.GrpcLndServices
+		connErr error
+	)
 	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
+		select {
+		case <-b.quit:
+			return errors.New("boltnd stopped during startup")
+		default:
+		}
+
 		log.Infof("Attempt: %v to connect to lnd", i)
 
-		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
+		lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
 		if connErr != nil {
 			log.Errorf("error starting lndclient: %w (attempt: %v)",
 				connErr, i)
 
-			time.Sleep(b.cfg.LNDWait)
+			select {
+			case <-time.After(b.cfg.LNDWait):
+			case <-b.quit:
+			}
+
 			continue
 		}
 
@@ -93,7 +114,22 @@ func (b *Boltnd) Start() error {
 		return fmt.Errorf("could not connect to lnd: %w", connErr)
 	}
 
-	if err := b.rpcServer.Start(&b.lnd.LndServices); err != nil {
+	// Hand our connection over to be closed on shutdown, unless we've
+	// already been stopped.
+	b.lndMtx.Lock()
+	select {
+	case <-b.quit:
+		b.lndMtx.Unlock()
+		lnd.Close()
+
+		return errors.New("boltnd stopped during startup")
+
+	default:
+		b.lnd = lnd
+		b.lndMtx.Unlock()
+	}
+
+	if err := b.rpcServer.Start(&lnd.LndServices); err != nil {
 		return fmt.Errorf("error starting rpcserver: %v", err)
 	}
 
@@ -107,11 +143,15 @@ func (b *Boltnd) Stop() error {
 	}
 
 	log.Info("Stopping Boltnd")
+	close(b.quit)
 
 	if err := b.rpcServer.Stop(); err != nil {
 		return fmt.Errorf("could not stop rpcserver: %v", err)
 	}
 
+	b.lndMtx.Lock()
+	defer b.lndMtx.Unlock()
+
 	if b.lnd != nil {
 		b.lnd.Close()
 	}
-- 
2.43.0


From 531379ba4649427025ad4ad7328302e36a40b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 17/19] fix: accept the empty encoding of a zero truncated
 integer

A truncated uint64 of zero is encoded without any bytes (for example for an
offer that expires at the unix epoch), but the decoder refused it.
---
 lnwire/tu64.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lnwire/tu64.go b/lnwire/tu64.go
index 2e085dc..4069b8a 100644
--- a/lnwire/tu64.go
+++ b/lnwire/tu64.go
@@ -21,9 +21,9 @@ func encodeTU64(w io.Writer, val interface{}, buf *[8]byte) error {
 // decodeTU64 decodes a truncated uint64 tlv.
 //
 // Note: lnd doesn't have this functionality on its own yet (only in mpp decode)
-// so it is added here.
+// so it is added here. A truncated zero has no bytes at all.
 func decodeTU64(r io.Reader, val interface{}, buf *[8]byte, l uint64) error {
-	if v, ok := val.(*uint64); ok && 1 <= l && l <= 8 {
+	if v, ok := val.(*uint64); ok && l <= 8 {
 		if err := tlv.DTUint64(r, v, buf, l); err != nil {
 			return err
 		}
-- 
2.43.0


From 7bb17c416ca3a67fb5f70c94bfeac3490bb4ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 18/19] fix: encode bolt 12 features without a second length

The features record of offers, invoice requests and invoices is just the
feature bits (...*byte), its length is the length of the record. We wrote and
expected another two byte length in its value, so artifacts with features from
other implementations could not be decoded at all.
---
 lnwire/bolt12_shared.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index f81b504..687fb75 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -11,7 +11,8 @@ import (
 
 // encodeFetauresRecord creates a tlv record with the type provided, encoding
 // the feature vector provided as a byte vector. If the vector provided is nil
-// or empty the record returned will be nil.
+// or empty the record returned will be nil. The length of the vector is the
+// length of the record, it isn't repeated in its value.
 func encodeFetauresRecord(recordType tlv.Type,
 	features *lnwire.FeatureVector) (*tlv.Record, error) {
 
@@ -25,7 +26,7 @@ func encodeFetauresRecord(recordType tlv.Type,
 
 	w := new(bytes.Buffer)
 
-	if err := features.Encode(w); err != nil {
+	if err := features.EncodeBase256(w); err != nil {
 		return nil, fmt.Errorf("encode features: %w", err)
 	}
 
@@ -45,7 +46,9 @@ func decodeFeaturesRecord(decodedFeatures []byte,
 
 	// If we decoded a value for our feature vector, decode it.
 	if found {
-		err := rawFeatures.Decode(bytes.NewReader(decodedFeatures))
+		err := rawFeatures.DecodeBase256(
+			bytes.NewReader(decodedFeatures), len(decodedFeatures),
+		)
 		if err != nil {
 			return nil, fmt.Errorf("raw features decode: %w", err)
 		}
-- 
2.43.0


From f57148a1e2cb59871eab9f199d32500ad0c1303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 19/19] fix: check macaroons for our rpcs with lnd

lnd leaves the validation of macaroons entirely to the external validator of
a method, it does not run its own validation. Our validator accepted every
call, so all of our rpcs could be called with a macaroon that lacks their
permission, or without any macaroon. Ask lnd to check the macaroon instead.
---
 boltnd.go | 60 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index 9e96889..8327176 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -2,6 +2,7 @@ package boltnd
 
 import (
 	"context"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"sync"
@@ -14,6 +15,7 @@ import (
 	"github.com/carlakc/boltnd/routes"
 	"github.com/carlakc/boltnd/rpcserver"
 	"github.com/lightninglabs/lndclient"
+	"github.com/lightningnetwork/lnd/macaroons"
 	"google.golang.org/grpc"
 	"gopkg.in/macaroon-bakery.v2/bakery"
 )
@@ -27,6 +29,9 @@ type Boltnd struct {
 	lndMtx sync.Mutex
 	lnd    *lndclient.GrpcLndServices
 
+	// connected is closed once we have set our connection to lnd.
+	connected chan struct{}
+
 	rpcServer *rpcserver.Server
 
 	// quit is closed when boltnd is stopped.
@@ -55,8 +60,9 @@ func NewBoltnd(opts ...ConfigOption) (*Boltnd, error) {
 	setupLoggers(cfg)
 
 	impl := &Boltnd{
-		cfg:  cfg,
-		quit: make(chan struct{}),
+		cfg:       cfg,
+		connected: make(chan struct{}),
+		quit:      make(chan struct{}),
 	}
 
 	var err error
@@ -126,6 +132,7 @@ func (b *Boltnd) Start() error {
 
 	default:
 		b.lnd = lnd
+		close(b.connected)
 		b.lndMtx.Unlock()
 	}
 
@@ -197,12 +204,51 @@ func (b *Boltnd) Permissions() map[string][]bakery.Op {
 // met. A non-nil error is returned if any of the checks fail.
 //
 // NOTE: This is part of the lnd.ExternalValidator interface.
-func (b *Boltnd) ValidateMacaroon(_ context.Context,
-	_ []bakery.Op, _ string) error {
+func (b *Boltnd) ValidateMacaroon(ctx context.Context,
+	requiredPermissions []bakery.Op, fullMethod string) error {
+
+	macHex, err := macaroons.RawMacaroonFromContext(ctx)
+	if err != nil {
+		return err
+	}
+
+	macBytes, err := hex.DecodeString(macHex)
+	if err != nil {
+		return err
+	}
+
+	// lnd holds the root keys for its macaroons, but it does not validate
+	// macaroons for the methods that have an external validator. We need
+	// to ask it to do so, which we can't before we are connected.
+	select {
+	case <-b.connected:
+	case <-b.quit:
+		return errors.New("boltnd stopped")
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+
+	permissions := make(
+		[]lndclient.MacaroonPermission, len(requiredPermissions),
+	)
+	for i, op := range requiredPermissions {
+		permissions[i] = lndclient.MacaroonPermission{
+			Entity: op.Entity,
+			Action: op.Action,
+		}
+	}
+
+	valid, err := b.lnd.Client.CheckMacaroonPermissions(
+		ctx, macBytes, permissions, fullMethod,
+	)
+	if err != nil {
+		return fmt.Errorf("could not check macaroon: %w", err)
+	}
+
+	if !valid {
+		return fmt.Errorf("macaroon not valid for: %v", fullMethod)
+	}
 
-	// lnd will run validation for us, so we don't need to perform any
-	// additional validation.
-	// TODO - check that this is the case!
 	return nil
 }
 
-- 
2.43.0

