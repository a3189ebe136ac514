From fad3117921e98892f12e1a2fab8689c7a4443f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 01/16] fix: look for the word of a character at its word node

Entity.HasTargetWord counted the targets of the character node (the longer
characters of the bit trie) instead of those of the word node, so storing a
text failed or duplicated words as soon as one character's bits were the
beginning of another's ('1' and 'b', for example).
---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From faede1250fa2e22ce512b5d257a9f3cfcb396ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 02/16] fix: refuse a text with an empty word instead of
 panicking

The errors of the steps after the first were dropped by the phrase, word and
character repositories, so an empty word in the middle or at the end of a text
('a  b', 'a ') or a failing storage call led to a nil pointer dereference.
---
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From 29bb915904d19f8022417b0b5078f705a1ce0446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 03/16] fix: check the remaining unchecked errors of lookups

A failing storage call while extracting a text, providing the first element of
a character, comparing details, or moving between remarks, facts and stories
was dropped: the operation panicked or went on with a zero identifier.
---
 internal/concrete/character/aggragate.go |  3 +++
 internal/concrete/character/elements.go  |  3 +++
 internal/concrete/detail/factory.go      |  3 +++
 internal/concrete/fact/aggregate.go      | 15 +++++++++++++++
 internal/concrete/phrase/aggregate.go    |  3 +++
 internal/concrete/remark/aggregate.go    |  3 +++
 internal/concrete/word/aggregate.go      |  3 +++
 7 files changed, 33 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
-- 
2.43.0


From 9103c1676fbe5368b63f3822404552c21544f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 04/16] fix: find the fact of a remark and the story of a fact
 by their links

A remark's own fact node was taken for a node of the fact, and a fact's own
story node for a node of the story. The lookups ended at node 0, which all
stories of a graph then shared: after one fact was added anywhere, every remark
reported a next fact, and none could be reached.
---
 internal/concrete/fact/repository.go  | 14 +++++++--
 internal/concrete/remark/aggregate.go | 42 +++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..9284895 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,7 +87,12 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +136,12 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..43b11ec 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -297,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -347,7 +372,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2cc67ceffa68a7f5974b9119107d431aee6fb3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 05/16] fix: let an added fact know its first remark

AddFactToStory did not link the new fact to its remark, so GetNextFact failed.
---
 internal/concrete/remark/aggregate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 43b11ec..a4fb3e8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -332,6 +332,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From 9c9895989aa4afc414915c29f3b05ae801434b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 06/16] fix: add a fact at the end of its story

Adding a second fact through the same remark gave the first fact two
successors, after which GetNextFact failed for good.
---
 internal/concrete/fact/repository.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 9284895..e41a5d7 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -117,7 +117,30 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
+	// a fact added through an earlier fact goes to the end of the story
+	lastFact := fact
+	for {
+		hasTargetFact, err := lastFact.HasTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := lastFact.GetTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	err = lastFact.PointToPosition(nextFact.GetPosition())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fabc6703fab4a96badc1b5c090070457830ed93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 07/16] fix: keep the fact storage when moving from fact to
 fact

The aggregate of the fact that was reached had no storage, so a second step
(to the next fact, story, parent or first fact) was a nil pointer dereference.
---
 internal/concrete/fact/aggregate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..bae9977 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
-- 
2.43.0


From 42d9ab5fe155d71ba5f938d6cef064c1629f756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 08/16] fix: chain child stories as siblings of each other

A child points to its parent, but the search for older siblings started at the
parent itself and only when the parent had a parent: children of a top story
were never linked, a grandchild became a sibling of its parent, and the parent
got a second tree target. HasParentStory looked for children.
---
 internal/abstract/story/entity.go    |  1 +
 internal/concrete/fact/aggregate.go  |  2 +-
 internal/concrete/fact/repository.go | 20 +++++++-------------
 internal/concrete/story/entity.go    |  5 +++++
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/abstract/story/entity.go b/internal/abstract/story/entity.go
index 6458a73..6eff4e2 100644
--- a/internal/abstract/story/entity.go
+++ b/internal/abstract/story/entity.go
@@ -20,4 +20,5 @@ type Entity interface {
 
 	HasSourceTree() (bool, error)
 	GetSourceTree() (uint, error)
+	GetSourceTrees() ([]uint, error)
 }
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index bae9977..c4f2a7e 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -123,7 +123,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index e41a5d7..ce9b7d0 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -169,7 +169,7 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	sourceTrees, err := story.GetSourceTrees()
 	if err != nil {
 		return nil, err
 	}
@@ -179,14 +179,9 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
-	if err != nil {
-		return nil, err
-	}
+	if len(sourceTrees) != 0 {
 
-	if hasTargetTree {
-
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+		siblingStory, err := r.storyRepository.FetchByTree(sourceTrees[0])
 		if err != nil {
 			return nil, err
 		}
@@ -216,12 +211,11 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		if err != nil {
 			return nil, err
 		}
+	}
 
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
-		}
-
+	err = childStory.PointToTree(story.GetTree())
+	if err != nil {
+		return nil, err
 	}
 
 	//
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..7d05004 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -136,3 +136,8 @@ func (e Entity) GetSourceTree() (uint, error) {
 
 	return sources[0], nil
 }
+
+func (e Entity) GetSourceTrees() ([]uint, error) {
+
+	return e.storage.ReadSources(e.tree)
+}
-- 
2.43.0


From 2a5b6855cec30101c7fddc9e05b26c32309f858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 09/16] fix: link a new detail to its phrases once it is
 complete

A storage failure after the links to the phrases and before the references
left a detail that every later use of the same pair of texts found and took its
missing nodes from: those remarks were attached to node 0.
---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 63284290cda9e46eac80daa294ee3bea5e0c5d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 10/16] fix: refuse to fetch a remark by an identifier that is
 not a remark's

GetRemark made a remark out of any node; adding to it damaged the graph.
---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..f9466c7 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -89,6 +90,20 @@ func (r *Repository) CreateFirstUserRemark(object string, property string) (abst
 
 func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate, error) {
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("remark has wrong class: %d", remarkIdentifier)
+	}
+
 	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b72de61331e16ffe81b09ff26157a2c6016d6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 11/16] fix: continue an interrupted initialization of the
 class nodes

---
 internal/concrete/class/repository.go | 116 +++++---------------------
 1 file changed, 19 insertions(+), 97 deletions(-)

diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index 5222321..ff0f4f8 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -37,117 +37,39 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 
 	if !r.isInitialized {
 
-		hasFirstNode, err := r.storage.Has(1)
-		if err != nil {
-			return Entity{}, err
-		}
-
-		if !hasFirstNode {
-			result, err := r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != bitIdentifier {
-				return Entity{}, fmt.Errorf("wrong bit class node %d", result)
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != characterIdentifier {
-				return Entity{}, fmt.Errorf("wrong character class node %d", result)
-			}
-
-			err = r.storage.SetReference(bitIdentifier, characterIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != wordIdentifier {
-				return Entity{}, fmt.Errorf("wrong word class node %d", result)
-			}
-
-			err = r.storage.SetReference(characterIdentifier, wordIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
+		// an interrupted initialization is continued where it stopped
+		for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
 
-			if result != phraseIdentifier {
-				return Entity{}, fmt.Errorf("wrong phrase class node %d", result)
-			}
-
-			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
+			hasNode, err := r.storage.Has(identifier)
 			if err != nil {
 				return Entity{}, err
 			}
 
-			if result != detailIdentifier {
-				return Entity{}, fmt.Errorf("wrong detail class node %d", result)
-			}
-
-			err = r.storage.SetReference(phraseIdentifier, detailIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
+			if !hasNode {
+				result, err := r.storage.Create()
+				if err != nil {
+					return Entity{}, err
+				}
 
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
+				if result != identifier {
+					return Entity{}, fmt.Errorf("wrong class node %d instead of %d", result, identifier)
+				}
 			}
 
-			if result != remarkIdentifier {
-				return Entity{}, fmt.Errorf("wrong position class node %d", result)
+			if identifier == bitIdentifier {
+				continue
 			}
 
-			err = r.storage.SetReference(detailIdentifier, remarkIdentifier)
+			_, reference, err := r.storage.GetReference(identifier - 1)
 			if err != nil {
 				return Entity{}, err
 			}
 
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != factIdentifier {
-				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
-			}
-
-			err = r.storage.SetReference(remarkIdentifier, factIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != storyIdentifier {
-				return Entity{}, fmt.Errorf("wrong story class node %d", result)
-			}
-
-			err = r.storage.SetReference(factIdentifier, storyIdentifier)
-			if err != nil {
-				return Entity{}, err
+			if reference != identifier {
+				err = r.storage.SetReference(identifier-1, identifier)
+				if err != nil {
+					return Entity{}, err
+				}
 			}
 		}
 
-- 
2.43.0


From 6ee5ca3fd8f4c6b9542fbb76270e319aaa62848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 12/16] fix: remember that the class nodes are initialized

---
 internal/concrete/class/repository.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index ff0f4f8..3edbfeb 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -83,6 +83,8 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 			node.NewFact(factIdentifier, r.storage),
 			node.NewStory(storyIdentifier, r.storage),
 		)
+
+		r.isInitialized = true
 	}
 
 	return r.entity, nil
-- 
2.43.0


From 752d04bbc24ad2521e26cde021cda3865320267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 13/16] fix: give a character read by its class the storage

---
 internal/concrete/character/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/concrete/character/storage.go b/internal/concrete/character/storage.go
index 251f279..e64f582 100644
--- a/internal/concrete/character/storage.go
+++ b/internal/concrete/character/storage.go
@@ -80,6 +80,7 @@ func (s *Storage) ReadEntityByClass(class uint) (abstractCharacter.Entity, error
 		bit:       bit,
 		character: character,
 		word:      word,
+		storage:   s.storage,
 	}, nil
 }
 
-- 
2.43.0


From c8ca7e87ac5517564b0ac2ac6034a105a249633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 14/16] fix: continue an interrupted initialization of the bit
 nodes

---
 internal/concrete/bit/layer.go | 133 +++++++++++----------------------
 1 file changed, 42 insertions(+), 91 deletions(-)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 0022055..a39a3a8 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -30,118 +30,69 @@ func (l *layer) initialize() (Entity, Entity, error) {
 			return Entity{}, Entity{}, err
 		}
 
-		classIdentifiers, err := classEntity.GetAllBits()
+		storedIdentifiers, err := classEntity.GetAllBits()
 		if err != nil {
 			return Entity{}, Entity{}, err
 		}
 
-		switch len(classIdentifiers) {
-		case 0:
-			var classIdentifiers [2]uint
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
+		classIdentifiers := append([]uint{}, storedIdentifiers...)
 
-			classIdentifiers[0], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			classIdentifiers[1], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
-
-			// zero
-
-			zeroCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			err = l.storage.SetReference(zeroClassIdentifier, zeroCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
-
-			// one
+		if len(classIdentifiers) > 2 {
+			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+		}
 
-			oneCharacterIdentifier, err := l.storage.Create()
+		// an interrupted initialization is continued where it stopped
+		for len(classIdentifiers) < 2 {
+			classIdentifier, err := classEntity.CreateBit()
 			if err != nil {
 				return Entity{}, Entity{}, err
 			}
 
-			err = l.storage.SetReference(oneClassIdentifier, oneCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+			classIdentifiers = append(classIdentifiers, classIdentifier)
+		}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
+		zeroClassIdentifier, oneClassIdentifier := classIdentifiers[0], classIdentifiers[1]
+		if oneClassIdentifier < zeroClassIdentifier {
+			zeroClassIdentifier, oneClassIdentifier = oneClassIdentifier, zeroClassIdentifier
+		}
 
-		case 2:
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
+		zeroEntity, err := l.provideEntity(false, zeroClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
+		oneEntity, err := l.provideEntity(true, oneClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			// zero
+		l.zeroEntity = zeroEntity
+		l.oneEntity = oneEntity
 
-			_, zeroCharacterIdentifier, err := l.storage.GetReference(zeroClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		l.isInitialized = true
+	}
 
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
+	return l.zeroEntity, l.oneEntity, nil
+}
 
-			// one
+func (l *layer) provideEntity(value bool, class uint) (Entity, error) {
 
-			_, oneCharacterIdentifier, err := l.storage.GetReference(oneClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+	_, character, err := l.storage.GetReference(class)
+	if err != nil {
+		return Entity{}, err
+	}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
-		default:
-			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+	if character == 0 {
+		character, err = l.storage.Create()
+		if err != nil {
+			return Entity{}, err
 		}
 
-		l.isInitialized = true
+		err = l.storage.SetReference(class, character)
+		if err != nil {
+			return Entity{}, err
+		}
 	}
 
-	return l.zeroEntity, l.oneEntity, nil
+	return newEntity(value, class, character, l.storage), nil
 }
-- 
2.43.0


From 4f97e2c0b07d19a358a3a42b35e35e8c1a59eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 15/16] fix: complete a new fact before it becomes part of its
 story

---
 internal/abstract/fact/repository.go  | 10 +++-
 internal/concrete/fact/repository.go  | 82 +++++++++++++++++----------
 internal/concrete/remark/aggregate.go | 24 +-------
 3 files changed, 61 insertions(+), 55 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..95a6835 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -1,8 +1,14 @@
 package fact
 
+// FirstRemark is the remark a new fact starts with.
+type FirstRemark interface {
+	GetFact() uint
+	PointToFact(fact uint) error
+}
+
 type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
-	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	CreateNextFact(remarkIdentifier uint, firstRemark FirstRemark) (Aggregate, error)
+	CreateChildStoryFact(remarkIdentifier uint, firstRemark FirstRemark) (Aggregate, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index ce9b7d0..5c090f9 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -80,7 +80,7 @@ func (r *Repository) FetchByRemark(remarkIdentifier uint) (abstractFact.Aggregat
 	}, nil
 }
 
-func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateNextFact(remarkIdentifier uint, firstRemark abstractFact.FirstRemark) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
@@ -117,6 +117,17 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
+	// the new fact is complete before it becomes part of the story
+	err = firstRemark.PointToFact(nextFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
+	err = nextFact.PointToRemark(firstRemark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	// a fact added through an earlier fact goes to the end of the story
 	lastFact := fact
 	for {
@@ -152,7 +163,7 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 	}, nil
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateChildStoryFact(remarkIdentifier uint, firstRemark abstractFact.FirstRemark) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
@@ -179,6 +190,44 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
+	//
+
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	classIdentifier, err := class.CreateFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	err = firstFact.PointToStory(childStory.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
+	err = childStory.PointToFact(firstFact.GetStory())
+	if err != nil {
+		return nil, err
+	}
+
+	// the child story is complete before it becomes part of the tree
+	err = firstRemark.PointToFact(firstFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
+	err = firstFact.PointToRemark(firstRemark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	if len(sourceTrees) != 0 {
 
 		siblingStory, err := r.storyRepository.FetchByTree(sourceTrees[0])
@@ -218,35 +267,6 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	//
-
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
-	}
-
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
-	}
-
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToStory(childStory.GetFact())
-	if err != nil {
-		return nil, err
-	}
-
-	err = childStory.PointToFact(firstFact.GetStory())
-	if err != nil {
-		return nil, err
-	}
-
-	//
-
 	return Aggregate{
 		fact:            firstFact,
 		factStorage:     r.factStorage,
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a4fb3e8..48f77cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -322,17 +322,7 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
-	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = remark.PointToFact(nextFact.GetRemark())
-	if err != nil {
-		return nil, err
-	}
-
-	err = nextFact.PointToRemark(remark.GetFact())
+	_, err = a.factRepository.CreateNextFact(factIdentifier, remark)
 	if err != nil {
 		return nil, err
 	}
@@ -382,17 +372,7 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = remark.PointToFact(firstFact.GetRemark())
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToRemark(remark.GetFact())
+	_, err = a.factRepository.CreateChildStoryFact(factIdentifier, remark)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 63ad25df4d1e3e89caa2abd310cb2f6309600259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 16/16] fix: refuse a text that is not valid UTF-8 instead of
 altering it

Invalid bytes were stored as U+FFFD: the text read back changed, and texts
that differ in such bytes were merged.
---
 internal/concrete/word/paths.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/concrete/word/paths.go b/internal/concrete/word/paths.go
index df7c41e..ae52b66 100644
--- a/internal/concrete/word/paths.go
+++ b/internal/concrete/word/paths.go
@@ -2,6 +2,7 @@ package word
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 type paths struct{}
@@ -20,6 +21,10 @@ func (p *paths) create(start rune) path {
 
 func (p *paths) collect(word string) (path, error) {
 
+	if !utf8.ValidString(word) {
+		return nil, fmt.Errorf("word is not valid UTF-8: %q", word)
+	}
+
 	path := []rune(word)
 
 	if len(path) < 1 {
-- 
2.43.0

