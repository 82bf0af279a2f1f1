# The settings are read by unexported functions: a file which exports them is laid over the tree.
mkdir -p "$scratch/overlay"
cat > "$scratch/overlay/export.go" <<'X'
package pttbbs

import (
	"reflect"

	"github.com/Ptt-official-app/go-bbs"
)

// VerifSettings reads the settings of a user.
func VerifSettings(recs []bbs.UserRecord, id string) (map[string]bool, error) {
	userRecs = recs
	f, err := getUserFlagAllByID(id)
	if err != nil {
		return nil, err
	}
	v := reflect.ValueOf(f)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	out := make(map[string]bool, 16)
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Bool {
			out[v.Type().Field(i).Name] = v.Field(i).Bool()
		}
	}
	return out, nil
}
X
printf '{"Replace": {"%s/pttbbs/verifmc_export.go": "%s/overlay/export.go"}}\n' "$repo" "$scratch" > "$scratch/overlay.json"
if (cd "$repo" && go build -overlay "$scratch/overlay.json" ./pttbbs); then
	BUILD_FLAGS="-overlay $scratch/overlay.json -tags settings"
else
	echo "the settings are not where they were, the check goes without them"
fi
