module verif/mc

go 1.24

require (
	github.com/DataDog/zstd v1.5.5
	github.com/ProtonMail/go-crypto v1.0.0
	github.com/klauspost/compress v1.17.8
	github.com/sassoftware/go-rpmutils v0.0.0
	github.com/ulikunitz/xz v0.5.12
	golang.org/x/crypto v0.31.0
	golang.org/x/sys v0.28.0
)

require github.com/cloudflare/circl v1.3.8 // indirect

replace github.com/sassoftware/go-rpmutils => /repo
