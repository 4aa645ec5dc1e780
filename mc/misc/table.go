package main

import "github.com/dargueta/disko/disks"

// table is an independent copy of the documented geometries.
var table = []disks.DiskGeometry{
	{Name: "IBM 23FD", Slug: "ibm_23fd", FirstYearAvailable: 1971, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 319, SectorsPerTrack: 8, TotalDataTracks: 32, HiddenTracks: 0, Heads: 1, Notes: "http://fileformats.archiveteam.org/wiki/IBM_23FD"},
	{Name: "IBM 33FD (242K)", Slug: "ibm_33fd_242k", FirstYearAvailable: 1973, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 128, SectorsPerTrack: 26, TotalDataTracks: 73, HiddenTracks: 0, Heads: 1, Notes: ""},
	{Name: "IBM 33FD (284K)", Slug: "ibm_33fd_284k", FirstYearAvailable: 1973, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 256, SectorsPerTrack: 15, TotalDataTracks: 74, HiddenTracks: 1, Heads: 1, Notes: "Does NOT include index cylinder"},
	{Name: "IBM 33FD (303K)", Slug: "ibm_33fd_303k", FirstYearAvailable: 1973, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 74, HiddenTracks: 1, Heads: 1, Notes: "Does NOT include index cylinder"},
	{Name: "IBM 43FD (492K)", Slug: "ibm_43fd_492k", FirstYearAvailable: 1976, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 128, SectorsPerTrack: 26, TotalDataTracks: 74, HiddenTracks: 1, Heads: 2, Notes: "Does NOT include index cylinder"},
	{Name: "IBM 43FD (568K)", Slug: "ibm_43fd_568k", FirstYearAvailable: 1976, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 256, SectorsPerTrack: 15, TotalDataTracks: 74, HiddenTracks: 1, Heads: 2, Notes: "Does NOT include index cylinders"},
	{Name: "IBM 53FD (985K)", Slug: "ibm_53fd_985k", FirstYearAvailable: 1977, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 256, SectorsPerTrack: 26, TotalDataTracks: 74, HiddenTracks: 1, Heads: 2, Notes: "Does NOT include index cylinders"},
	{Name: "IBM 53FD (1136K)", Slug: "ibm_53fd_1136k", FirstYearAvailable: 1977, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 15, TotalDataTracks: 74, HiddenTracks: 1, Heads: 2, Notes: "Does NOT include index cylinders"},
	{Name: "IBM 53FD (1212kB)", Slug: "ibm_53fd_1212k", FirstYearAvailable: 1977, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 1024, SectorsPerTrack: 8, TotalDataTracks: 74, HiddenTracks: 1, Heads: 2, Notes: "Does NOT include index cylinders"},
	{Name: "DEC RX01", Slug: "dec_rx01", FirstYearAvailable: 1975, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 128, SectorsPerTrack: 26, TotalDataTracks: 77, HiddenTracks: 0, Heads: 1, Notes: "http://avitech.com.au/?page_id=1008"},
	{Name: "DEC RX02", Slug: "dec_rx02", FirstYearAvailable: 1978, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 256, SectorsPerTrack: 26, TotalDataTracks: 77, HiddenTracks: 0, Heads: 1, Notes: "http://avitech.com.au/?page_id=1008"},
	{Name: "DEC RK05", Slug: "rk05", FirstYearAvailable: 1974, FormFactor: "19\"", IsRemovable: 1, BitsPerAddressUnit: 16, AddressUnitsPerSector: 256, SectorsPerTrack: 12, TotalDataTracks: 200, HiddenTracks: 3, Heads: 2, Notes: "https://www.pdp8online.com/rk05/rk05.shtml"},
	{Name: "IBM 3740", Slug: "ibm_3740", FirstYearAvailable: 1973, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 128, SectorsPerTrack: 26, TotalDataTracks: 73, HiddenTracks: 0, Heads: 1, Notes: ""},
	{Name: "MS-DOS 8\" SS SD", Slug: "msdos_8in_ss_sd", FirstYearAvailable: 1981, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 128, SectorsPerTrack: 26, TotalDataTracks: 77, HiddenTracks: 0, Heads: 1, Notes: "Release year is a guess"},
	{Name: "MS-DOS 8\" DS SD", Slug: "msdos_8in_ds_sd", FirstYearAvailable: 1981, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 128, SectorsPerTrack: 26, TotalDataTracks: 77, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 8\" SS DD", Slug: "msdos_8in_ss_dd", FirstYearAvailable: 1981, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 1024, SectorsPerTrack: 8, TotalDataTracks: 77, HiddenTracks: 0, Heads: 1, Notes: "Release year is a guess"},
	{Name: "MS-DOS 8\" DS DD", Slug: "msdos_8in_ds_dd", FirstYearAvailable: 1981, FormFactor: "8\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 1024, SectorsPerTrack: 8, TotalDataTracks: 77, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 5 1/4\" SS DD 160K", Slug: "msdos_514in_ss_dd_8", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 40, HiddenTracks: 0, Heads: 1, Notes: "Release year is a guess"},
	{Name: "MS-DOS 5 1/4\" DS DD 320K", Slug: "msdos_514in_ds_dd_8", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 40, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 5 1/4\" SS DD 180K", Slug: "msdos_514in_ss_dd_9", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 9, TotalDataTracks: 40, HiddenTracks: 0, Heads: 1, Notes: "Release year is a guess"},
	{Name: "MS-DOS 5 1/4\" DS DD 360K", Slug: "msdos_514in_ds_dd_9", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 9, TotalDataTracks: 40, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 5 1/4\" SS QD", Slug: "msdos_514in_ss_qd", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 80, HiddenTracks: 0, Heads: 1, Notes: "Rare"},
	{Name: "MS-DOS 5 1/4\" DS QD", Slug: "msdos_514in_ds_qd", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: "Rare"},
	{Name: "MS-DOS 5 1/4\" DS HD", Slug: "msdos_514in_ds_hd", FirstYearAvailable: 1981, FormFactor: "5 1/4\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 15, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 3 1/2\" SS DD 320K", Slug: "msdos_312in_ss_dd_8", FirstYearAvailable: 1983, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 80, HiddenTracks: 0, Heads: 1, Notes: ""},
	{Name: "MS-DOS 3 1/2\" SS DD 360K", Slug: "msdos_312in_ss_dd_9", FirstYearAvailable: 1983, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 9, TotalDataTracks: 80, HiddenTracks: 0, Heads: 1, Notes: ""},
	{Name: "MS-DOS 3 1/2\" DS DD 640K", Slug: "msdos_312in_ds_dd_8", FirstYearAvailable: 1984, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 8, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 3 1/2\" DS DD 720K", Slug: "msdos_312in_ds_dd_9", FirstYearAvailable: 1984, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 9, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 3 1/2\" DS HD 1440K", Slug: "msdos_312in_ds_hd_18", FirstYearAvailable: 1986, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 18, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: ""},
	{Name: "MS-DOS 3 1/2\" DS HD 1680K", Slug: "msdos_312in_ds_hd_21_80", FirstYearAvailable: 1986, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 21, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 3 1/2\" DS HD 1720K", Slug: "msdos_312in_ds_hd_21_82", FirstYearAvailable: 1986, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 21, TotalDataTracks: 82, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "MS-DOS 3 1/2\" DS ED", Slug: "msdos_312in_ds_ed", FirstYearAvailable: 1986, FormFactor: "3 1/2\"", IsRemovable: 1, BitsPerAddressUnit: 8, AddressUnitsPerSector: 512, SectorsPerTrack: 36, TotalDataTracks: 80, HiddenTracks: 0, Heads: 2, Notes: "Release year is a guess"},
	{Name: "ST-506", Slug: "st_506", FirstYearAvailable: 1980, FormFactor: "", IsRemovable: 0, BitsPerAddressUnit: 8, AddressUnitsPerSector: 256, SectorsPerTrack: 26, TotalDataTracks: 153, HiddenTracks: 0, Heads: 4, Notes: ""},
	{Name: "ST-412", Slug: "St_412", FirstYearAvailable: 1981, FormFactor: "", IsRemovable: 0, BitsPerAddressUnit: 8, AddressUnitsPerSector: 256, SectorsPerTrack: 26, TotalDataTracks: 306, HiddenTracks: 0, Heads: 4, Notes: ""},
}
