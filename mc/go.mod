module verifmc

go 1.27

godebug randseednop=0

require (
	github.com/RH12503/Triangula v0.0.0
	github.com/dgryski/go-pcgr v0.0.0-20190219145045-9a7ede0ca611
	github.com/enki/fastprng v0.0.0-20190912035746-b46f877a1a50 // indirect
	github.com/fogleman/delaunay v0.0.0-20180910191513-63f09b4c883d
	github.com/lazybeaver/xorshift v0.0.0-20170702203709-ce511d4823dd // indirect
	github.com/panjf2000/ants/v2 v2.4.3
	github.com/paulmach/orb v0.2.1 // indirect
	github.com/stretchr/testify v1.4.0
)

replace github.com/RH12503/Triangula => /repo

replace github.com/panjf2000/ants/v2 => ./stub/ants

replace github.com/dgryski/go-pcgr => ./stub/pcgr
