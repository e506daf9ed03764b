# The application's models in the worlds that use the Django ORM.
from django.db import models


class Author(models.Model):
    name = models.CharField(max_length=40)
    born = models.DateField(null=True)
    wakes = models.TimeField(null=True)
    seen = models.DateTimeField(null=True)
    agent = models.ForeignKey('Author', null=True)


class Tag(models.Model):
    label = models.CharField(max_length=40)

    class Meta:
        ordering = ('label', 'id')


class Book(models.Model):
    title = models.CharField(max_length=40)
    pages = models.IntegerField(default=0)
    cover = models.FileField(upload_to='covers', null=True)
    author = models.ForeignKey(Author, null=True)
    editor = models.ForeignKey(Author, null=True, related_name='edited')
    tags = models.ManyToManyField(Tag)


class Person(models.Model):
    age = models.IntegerField(default=0)

    class Meta:
        abstract = True


class Student(Person):
    group = models.CharField(max_length=5, primary_key=True)


class CookBook(Book):
    vegan = models.BooleanField(default=False)
