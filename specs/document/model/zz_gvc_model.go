package model

import gvc "github.com/zhiqiangxu/mondis/zzgvc"

// ZZSameIndex compares two indexes, up to the j-th column.
func ZZSameIndex(a, b *IndexInfo, j int) bool {
	if a.ID != b.ID || a.Name != b.Name || a.Unique != b.Unique || a.State != b.State || len(a.Columns) != len(b.Columns) {
		return false
	}
	if (a.JobRedundant == nil) != (b.JobRedundant == nil) {
		return false
	}
	if a.JobRedundant != nil && (a.JobRedundant.Collection != b.JobRedundant.Collection || a.JobRedundant.DB != b.JobRedundant.DB || a.JobRedundant.CID != b.JobRedundant.CID) {
		return false
	}
	return j < 0 || j >= len(a.Columns) || a.Columns[j] == b.Columns[j]
}

// ZZSameCollection compares two collections as far as the index in and the positions j show.
func ZZSameCollection(a, b *CollectionInfo, in string, j int) bool {
	if a.ID != b.ID || a.Name != b.Name || a.State != b.State || len(a.IndexOrder) != len(b.IndexOrder) {
		return false
	}
	if j >= 0 && j < len(a.IndexOrder) && a.IndexOrder[j] != b.IndexOrder[j] {
		return false
	}
	x, ok := a.Indices[in]
	y, ok2 := b.Indices[in]
	return ok == ok2 && (!ok || x != nil && y != nil && ZZSameIndex(x, y, j))
}

// ZZSameDB compares two databases as far as the collection cn, the index in and the positions j show.
func ZZSameDB(a, b *DBInfo, cn, in string, j int) bool {
	if a.ID != b.ID || a.Name != b.Name || a.State != b.State || len(a.CollectionOrder) != len(b.CollectionOrder) {
		return false
	}
	if j >= 0 && j < len(a.CollectionOrder) && a.CollectionOrder[j] != b.CollectionOrder[j] {
		return false
	}
	x, ok := a.Collections[cn]
	y, ok2 := b.Collections[cn]
	return ok == ok2 && (!ok || x != nil && y != nil && ZZSameCollection(x, y, in, j))
}

func specCloneLoops(j int) {
	gvc.Loop(func(rangeindex int, clone IndexInfo, ii *IndexInfo) bool {
		return len(clone.Columns) == len(ii.Columns) && (j < 0 || j > rangeindex || clone.Columns[j] == ii.Columns[j])
	})
}

func specCloneCILoops(in string, j int) {
	specCloneLoops(j)
	gvc.Loop(func(clone CollectionInfo, c *CollectionInfo) bool {
		x, ok := c.Indices[in]
		y, ok2 := clone.Indices[in]
		return ok2 == gvc.Visited(in) && (!ok || !ok2 || y != nil && ZZSameIndex(x, y, j))
	})
	gvc.Loop(func(rangeindex int, clone CollectionInfo, c *CollectionInfo) bool {
		return len(clone.IndexOrder) == len(c.IndexOrder) && (j < 0 || j > rangeindex || clone.IndexOrder[j] == c.IndexOrder[j])
	})
}

// ZZCloneLoops are the loop invariants of copying a database.
func ZZCloneLoops(cn, in string, j int) {
	specCloneCILoops(in, j)
	gvc.Loop(func(clone DBInfo, db *DBInfo) bool {
		x, ok := db.Collections[cn]
		y, ok2 := clone.Collections[cn]
		return ok2 == gvc.Visited(cn) && (!ok || !ok2 || y != nil && ZZSameCollection(x, y, in, j))
	})
	gvc.Loop(func(rangeindex int, clone DBInfo, db *DBInfo) bool {
		return len(clone.CollectionOrder) == len(db.CollectionOrder) && (j < 0 || j > rangeindex || clone.CollectionOrder[j] == db.CollectionOrder[j])
	})
}

//gvc:spec (*IndexInfo).Clone
func specCloneIndex(ii *IndexInfo) *IndexInfo { return gvc.Copy(ii).(*IndexInfo) }

//gvc:spec (*CollectionInfo).Clone
func specCloneCollection(c *CollectionInfo) *CollectionInfo { return gvc.Copy(c).(*CollectionInfo) }

//gvc:spec (*DBInfo).Clone
func specCloneDB(db *DBInfo) *DBInfo { return gvc.Copy(db).(*DBInfo) }

//gvc:proves (*IndexInfo).Clone
//gvc:prove C17
func zzCloneIndex(ii IndexInfo, j int) {
	specCloneLoops(j)
	c := ii.Clone()
	gvc.Ensures("a copy is equal", ZZSameIndex(&ii, c, j))
}

//gvc:proves (*CollectionInfo).Clone
//gvc:prove C17
func zzCloneCollection(ci CollectionInfo, in string, j int) {
	gvc.NonNil(ci.Indices)
	specCloneCILoops(in, j)
	c := ci.Clone()
	gvc.Ensures("a copy is equal", ZZSameCollection(&ci, c, in, j))
}

//gvc:proves (*DBInfo).Clone
//gvc:prove C17
func zzCloneDB(db DBInfo, cn, in string, j int) {
	gvc.NonNil(db.Collections)
	ZZCloneLoops(cn, in, j)
	c := db.Clone()
	gvc.Ensures("a copy is equal", ZZSameDB(&db, c, cn, in, j))
}
