from seedlib import seed

exec(open('seeds_2.py').read().split("seed('c04-remove-hash-entry'")[0])
BOLT=BOLT.replace('var _ usecase','var _ msg.Bucket\nvar _ usecase')
MS='metaserver/internal/'
seed('c08-metadata-view','C08','a page that is freed and reused between the read of a record and the use of the result',
 'the bytes returned are a view of the mapped store page: later writes change them or they fault',
 'metaserver','internal/usecase/repo',BOLT.replace('import (','import (\n\t"bytes"\n\t"fmt"',1)+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewMetadataRepo(s, NewMetadataCacheRepo(mem()))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b", CreateTime: 42}))
	for i := 0; i < 40; i++ {
		must(t, r.AddMetadata(fmt.Sprintf("b/p%04d", i), &msg.Metadata{Name: fmt.Sprintf("p%04d", i), Bucket: "b"}))
	}
	bt, err := r.GetMetadataBytes("b/o")
	must(t, err)
	want := bytes.Clone(bt)
	for i := 0; i < 300; i++ {
		must(t, r.AddMetadata(fmt.Sprintf("a/x%04d", i), &msg.Metadata{Name: fmt.Sprintf("x%04d", i), Bucket: "a"}))
	}
	if !bytes.Equal(bt, want) {
		t.Fatal("bytes read from the store changed after the transaction")
	}
}
''',[(MS+'usecase/repo/metadata_repo.go','''		res, _ = io.ReadAll(bytes.NewBuffer(v))
''','''		res = bytes.NewBuffer(v).Bytes()
''')])
seed('c08-foreach-key-view','C08','keys collected by a callback and used after writes that reuse the page they were read from',
 'names are handed to the callback as strings over the mapped page, so a migration that collects them works on names that change under it',
 'metaserver','internal/usecase/repo',BOLT.replace('import (','import (\n\t"fmt"\n\t"strings"',1)+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewMetadataRepo(s, NewMetadataCacheRepo(mem()))
	br := NewBatchRepo(s, NewMetadataCacheRepo(mem()))
	for i := 0; i < 20; i++ {
		must(t, r.AddMetadata(fmt.Sprintf("b/o%04d", i), &msg.Metadata{Name: fmt.Sprintf("o%04d", i), Bucket: "b"}))
	}
	var keys, want []string
	br.ForeachKeys(func(k string) bool {
		keys = append(keys, k)
		want = append(want, strings.Clone(k))
		return true
	})
	for i := 0; i < 400; i++ {
		must(t, r.AddMetadata(fmt.Sprintf("a/x%04d", i), &msg.Metadata{Name: fmt.Sprintf("x%04d", i), Bucket: "a"}))
	}
	for i := range keys {
		if keys[i] != want[i] {
			t.Fatalf("key %d changed from %q to %q", i, want[i], keys[i])
		}
	}
}
''',[(MS+'usecase/logic/metadata_logic.go','''			if !fn(string(k)) {
''','''			if !fn(util.BytesToStr(k)) {
''')])
