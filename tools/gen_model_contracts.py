#!/usr/bin/env python3
# Writes contracts/model/accessors_verif.go: for every class of package model,
# a snapshot of everything its getters return, and one contract per setter that
# says what the snapshot is afterwards. Only the public methods are used.
classes = {
 'table': ('Table', [('Name','string'),('IsTemporary','bool'),('IsIfNotExists','bool'),('HasLikeTable','bool'),('LikeTable','string'),('ID','string')],
   [('SetTemporary',['v bool'],'Table',{'IsTemporary':'v'}),('SetIfNotExists',['v bool'],'Table',{'IsIfNotExists':'v'}),('SetLikeTable',['v string'],'Table',{'HasLikeTable':'true','LikeTable':'v'})],
   [('columns','TableColumn'),('indexes','Index'),('options','TableOption')]),
 'index': ('Index', [('HasType','bool'),('HasName','bool'),('HasSymbol','bool'),('Name','string'),('Symbol','string'),('Reference','Reference'),('IsBtree','bool'),('IsHash','bool'),('IsPrimaryKey','bool'),('IsNormal','bool'),('IsUnique','bool'),('IsFullText','bool'),('IsSpatial','bool'),('IsForeignKey','bool')],
   [('SetReference',['v Reference'],'Index',{'Reference':'v'}),('SetSymbol',['v string'],'Index',{'HasSymbol':'true','Symbol':'v'}),('SetName',['v string'],'Index',{'HasName':'true','Name':'v'}),
    ('SetType',['v IndexType'],'Index',{'HasType':'v != IndexTypeNone','IsBtree':'v == IndexTypeBtree','IsHash':'v == IndexTypeHash'})],
   [('columns','IndexColumn'),('options','IndexOption')]),
 'indexColumn': ('IndexColumn', [('Name','string'),('HasLength','bool'),('Length','string'),('HasSortDirection','bool'),('IsAscending','bool'),('IsDescending','bool')],
   [('SetLength',['v string'],'IndexColumn',{'HasLength':'true','Length':'v'}),
    ('SetSortDirection',['v IndexColumnSortDirection'],'',{'HasSortDirection':'v != SortDirectionNone','IsAscending':'v == SortDirectionAscending','IsDescending':'v == SortDirectionDescending'})],[]),
 'reference': ('Reference', [('TableName','string'),('OnDelete','ReferenceOption'),('OnUpdate','ReferenceOption'),('MatchFull','bool'),('MatchPartial','bool'),('MatchSimple','bool')],
   [('SetTableName',['v string'],'Reference',{'TableName':'v'}),('SetMatch',['v ReferenceMatch'],'Reference',{'MatchFull':'v == ReferenceMatchFull','MatchPartial':'v == ReferenceMatchPartial','MatchSimple':'v == ReferenceMatchSimple'}),
    ('SetOnDelete',['v ReferenceOption'],'Reference',{'OnDelete':'v'}),('SetOnUpdate',['v ReferenceOption'],'Reference',{'OnUpdate':'v'})],
   [('columns','IndexColumn')]),
 'length': ('Length', [('HasDecimal','bool'),('Decimal','string'),('Length','string')],[('SetDecimal',['v string'],'Length',{'HasDecimal':'true','Decimal':'v'})],[]),
 'database': ('Database', [('Name','string'),('IsIfNotExists','bool'),('ID','string')],[('SetIfNotExists',['v bool'],'Database',{'IsIfNotExists':'v'})],[]),
 'tablecol': ('TableColumn', [('ID','string'),('TableID','string'),('Name','string'),('Type','ColumnType'),('HasLength','bool'),('Length','Length'),('HasCharacterSet','bool'),('CharacterSet','string'),('HasCollation','bool'),('Collation','string'),('HasDefault','bool'),('Default','string'),('IsQuotedDefault','bool'),('HasComment','bool'),('Comment','string'),('HasAutoUpdate','bool'),('AutoUpdate','string'),('HasEnumValues','bool'),('HasSetValues','bool'),('NullState','NullState'),('IsAutoIncrement','bool'),('IsBinary','bool'),('IsKey','bool'),('IsPrimary','bool'),('IsUnique','bool'),('IsUnsigned','bool'),('IsZeroFill','bool')],
   [('SetTableID',['v string'],'TableColumn',{'TableID':'v'}),('SetType',['v ColumnType'],'TableColumn',{'Type':'v'}),('SetLength',['v Length'],'TableColumn',{'HasLength':'v != nil','Length':'v'}),
    ('SetCharacterSet',['v string'],'TableColumn',{'HasCharacterSet':'true','CharacterSet':'v'}),('SetCollation',['v string'],'TableColumn',{'HasCollation':'true','Collation':'v'}),
    ('SetDefault',['v string','q bool'],'TableColumn',{'HasDefault':'true','Default':'v','IsQuotedDefault':'q'}),('SetComment',['v string'],'TableColumn',{'HasComment':'true','Comment':'v'}),
    ('SetAutoUpdate',['v string'],'TableColumn',{'HasAutoUpdate':'true','AutoUpdate':'v'}),('SetEnumValues',['v []string'],'TableColumn',{'HasEnumValues':'len(v) != 0'}),('SetSetValues',['v []string'],'TableColumn',{'HasSetValues':'len(v) != 0'}),
    ('SetNullState',['v NullState'],'TableColumn',{'NullState':'v'})]+[('Set'+x,['v bool'],'TableColumn',{'Is'+x:'v'}) for x in ['AutoIncrement','Binary','Key','Primary','Unique','Unsigned','ZeroFill']],
   [('enumValues','string'),('setValues','string')]),
 'tableopt': ('TableOption',[('Key','string'),('Value','string'),('NeedQuotes','bool'),('ID','string')],[],[]),
 'indexopt': ('IndexOption',[('Key','string'),('Value','string'),('NeedQuotes','bool'),('ID','string')],[],[]),
}
out=['// Code generated by tools/gen_model_contracts.py. DO NOT EDIT.','','package model','','import g "github.com/schemalex/schemalex/internal/gocon"','']
chans={'table':{'columns':'Columns','indexes':'Indexes','options':'Options'},'index':{'columns':'Columns','options':'Options'},'reference':{'columns':'Columns'},'tablecol':{'enumValues':'EnumValues','setValues':'SetValues'}}
for c,(iface,getters,setters,lists) in classes.items():
    out.append(f'// {c}Obs is everything the getters of a {iface} return.')
    out.append(f'type {c}Obs struct {{')
    for n,t in getters: out.append(f'\t{n} {t}')
    out.append('}'); out.append('')
    out.append(f'func obs_{c}(x {iface}) {c}Obs {{')
    out.append(f'\treturn {c}Obs{{')
    for n,t in getters: out.append(f'\t\t{n}: x.{n}(),')
    out.append('\t}'); out.append('}'); out.append('')
    for m,ps,ret,upd in setters:
        args=', '.join(p.split()[0] for p in ps)
        out.append(f'//gocon:contract (*{c}).{m}')
        out.append('//gocon:props C11'); out.append('//gocon:inline')
        out.append(f'func {c}_{m}(x *{c}, {", ".join(ps)}) {{')
        out.append(f'\to := obs_{c}(x)')
        for l,t in lists: out.append(f'\t{l} := x.{l}')
        if ret: out.append(f'\tr := x.{m}({args})')
        else: out.append(f'\tx.{m}({args})')
        for k,v in upd.items(): out.append(f'\to.{k} = {v}')
        out.append(f'\tg.Ensures("getters", obs_{c}(x) == o)')
        if ret: out.append(f'\tg.Ensures("returns-receiver", r == {ret}(x))')
        for l,t in lists:
            if l=='enumValues' and m=='SetEnumValues' or l=='setValues' and m=='SetSetValues':
                out.append(f'\tg.Ensures("list-{l}", g.Same(x.{l}, v) && len({l}) >= 0)')
            else:
                out.append(f'\tg.Ensures("list-{l}", g.Same(x.{l}, {l}))')
        out.append('\tg.ModifiesOnly("frame", x)')
        out.append('}'); out.append('')
    for l,t in lists:
        m=chans[c][l]
        out.append(f'//gocon:contract (*{c}).{m}')
        out.append('//gocon:props C11')
        out.append(f'func {c}_{m}(x *{c}) {{')
        out.append(f'\tc := x.{m}()')
        out.append('\tg.Ensures("fresh", g.Fresh(c))')
        out.append('\tg.Ensures("unread", g.ChanHead(c) == 0)')
        out.append(f'\tg.Ensures("count", g.ChanTail(c) == len(x.{l}))')
        out.append('\tg.Ensures("closed", g.ChanClosed(c))')
        out.append(f'\tg.Ensures("each", g.Forall(0, len(x.{l}), func(k int) bool {{ return g.Same(g.ChanAt(c, k), x.{l}[k]) }}))')
        out.append('\tg.ModifiesOnly("frame")')
        out.append('}'); out.append('')
open('/verif/contracts/model/accessors_verif.go','w').write('\n'.join(out))
